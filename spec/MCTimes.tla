------------------------------- MODULE MCTimes -------------------------------
(***************************************************************************)
(* What Times.tla promises, in all histories of two files up to a bound.     *)
(***************************************************************************)
EXTENDS Times

CONSTANTS BS, PAGES, EV, MaxOps
VARIABLES s, t, now, last, since
vars == <<s, t, now, last, since>>

PathA == <<"a">>
PathB == <<"b">>
Fl == [creat |-> FALSE, excl |-> FALSE, trunc |-> FALSE, append |-> FALSE]
Cfg == [bs |-> BS, bpp |-> 1, pages |-> PAGES, ev |-> EV]
Nodes == {1, 2}
Start == [StateWith(Cfg) EXCEPT !.nodes = (1 :> FileNode(<<1>>)) @@ (2 :> FileNode(<<1>>)), !.names = (PathA :> 1) @@ (PathB :> 2),
                                !.fds = (1 :> [n |-> 1, p |-> PathA, app |-> FALSE]) @@ (2 :> [n |-> 2, p |-> PathB, app |-> FALSE])]
Vals == {1000001, 1000002}
Ops == {[op |-> "write", h |-> h, off |-> o, d |-> <<7>>] : h \in Nodes, o \in {0, 1}}
       \union {[op |-> "read", h |-> h, off |-> 0, n |-> 1] : h \in Nodes}
       \union {[op |-> "ftruncate", h |-> h, n |-> n] : h \in Nodes, n \in {0, 2}}
       \union {[op |-> "fsync", h |-> h, data |-> d] : h \in Nodes, d \in BOOLEAN}
       \union {[op |-> "utimens", h |-> 1, p |-> PathA, a |-> a, m |-> m] : a \in {Omit, AtNow} \union Vals, m \in {Omit, AtNow} \union Vals}
       \union {[op |-> "clear"], [op |-> "checkpoint"]}

T0 == [n \in Nodes |-> Fresh(0, 420, <<0, 0>>)]
\* one of the times there may be
Chosen(x) == {[c EXCEPT !.vm = {m}, !.va = {a}, !.dm = {dm}, !.da = {da}] :
                 c \in {x}, m \in x.vm, a \in x.va, dm \in x.dm, da \in x.da}
Choices(x) == {c \in Chosen(x) : x.same => c.vm = c.dm /\ c.va = c.da}
\* modification times there have been since the last one that is surely durable
Since(o, y) ==
  [n \in Nodes |->
     IF (o.op = "fsync" /\ n = o.h /\ ~o.data) \/ o.op = "checkpoint" \/ (o.op = "utimens" /\ n = o.h /\ o.m # Omit) THEN y[n].vm
     ELSE since[n] \union y[n].vm \union \* when data reaches the backing file
                                     (IF o.op \in {"write", "ftruncate", "fsync"} /\ n = o.h THEN {now} ELSE {})]

Init == s = Start /\ t = T0 /\ now = 1 /\ last = [op |-> "nothing"] /\ since = [n \in Nodes |-> {0}]
Next == /\ now <= MaxOps
        /\ \E o \in Ops : \E x \in ApplyTimed(s, t, o, now, Empty) :
             /\ \E c1 \in Choices(x.t[1]), c2 \in Choices(x.t[2]) : t' = (1 :> c1) @@ (2 :> c2)
             /\ s' = x.s /\ last' = o
             /\ since' = Since(o, t')
        /\ now' = now + 1
Spec == Init /\ [][Next]_vars

Inv == \A n \in Nodes : Cardinality(t[n].vm) = 1 /\ Cardinality(t[n].dm) = 1
\* what is durable is never older than the last change that was synced (with eviction, blocks go at any time)
NotOlder == ~EV => \A n \in Nodes : t[n].dm \subseteq since[n]
\* a set time stays until something changes it, and is durable at once
SetSticks == [][\A n \in Nodes :
     /\ (last'.op = "utimens" /\ last'.h = n /\ last'.m \in Vals => t'[n].vm = {last'.m} /\ t'[n].dm = {last'.m})
     /\ (last'.op = "utimens" /\ last'.h = n /\ last'.m = Omit => t'[n].vm = t[n].vm /\ t'[n].dm = t[n].dm)
     /\ (t'[n].vm # t[n].vm => \/ last'.op \in {"write", "ftruncate", "utimens"} /\ last'.h = n
                               \/ last'.op = "clear" /\ t[n].dm # t[n].vm)
     /\ (t'[n].va # t[n].va => \/ last'.op \in {"read", "utimens"} /\ last'.h = n
                               \/ last'.op = "clear" /\ t[n].da # t[n].va)]_vars
\* syncing makes durable what stat says, and changes nothing of it; times of other files stay
Syncs == [][/\ (last'.op = "checkpoint" => \A n \in Nodes : t'[n].dm = t[n].vm /\ t'[n].vm = t[n].vm /\ t'[n].va = t[n].va)
            /\ (last'.op = "fsync" => t'[last'.h].vm = t[last'.h].vm /\ (~last'.data => t'[last'.h].dm = t[last'.h].vm))]_vars
Frame == [][last'.op \notin {"clear", "checkpoint"} => \A n \in Nodes : n # last'.h =>
              t'[n].vm = t[n].vm /\ t'[n].va = t[n].va /\ (~EV => t'[n].dm = t[n].dm /\ t'[n].da = t[n].da)]_vars
=============================================================================

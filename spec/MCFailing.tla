------------------------------ MODULE MCFailing ------------------------------
(***************************************************************************)
(* C17 as a model: any operation may also fail below (ApplyFailing), with    *)
(* every content of the backing file that is then allowed.                  *)
(***************************************************************************)
EXTENDS Failing
CONSTANTS BS, BPP, PAGES, MaxLen, MaxOps
VARIABLES st, last, steps

NoFl == [creat |-> FALSE, excl |-> FALSE, trunc |-> FALSE, append |-> FALSE]
A == <<"a">>
B == <<"b">>
S0 == StateWith([bs |-> BS, bpp |-> BPP, pages |-> PAGES, ev |-> FALSE])
Two == NewFd(NewFd([S0 EXCEPT !.nodes = (1 :> FileNode(<<>>)) @@ (2 :> FileNode(<<1>>)), !.names = (A :> 1) @@ (B :> 2)], 1, 1, A, NoFl), 2, 2, B, NoFl)
Contents == UNION {[1 .. n -> 0 .. 2] : n \in 0 .. MaxLen}
Seens == {Empty} \union {(1 :> c) : c \in Contents} \union {(2 :> c) : c \in Contents}

Take(X, o, fail) == \E x \in X : st' = x.s /\ last' = [o |-> o, r |-> x.r, fail |-> fail] /\ steps' = steps + 1
Do(o) == \/ Take(Apply(st, o, Empty), o, FALSE)
         \/ \E seen \in Seens : Take(ApplyFailing(st, o, seen), o, TRUE)
         \/ \E seen \in Seens : Take({x \in Killed(st, o, seen) : TRUE}, o, TRUE)
Next == \/ /\ st.alive
           /\ \/ \E h \in {1, 2}, off \in 0 .. MaxLen, d \in {<<1>>, <<2, 2>>} : off + Len(d) <= MaxLen /\ Do([op |-> "write", h |-> h, off |-> off, d |-> d])
              \/ \E h \in {1, 2}, n \in 0 .. MaxLen : Do([op |-> "ftruncate", h |-> h, n |-> n])
              \/ \E h \in {1, 2} : Do([op |-> "fsync", h |-> h])
              \/ Do([op |-> "clear"])
              \/ Do([op |-> "checkpoint"])
Init == st = Two /\ last = [o |-> [op |-> "init"], r |-> Ok, fail |-> FALSE] /\ steps = 0
Spec == Init /\ [][Next]_<<st, last, steps>>
MCView == st
Bound == steps < MaxOps

-----------------------------------------------------------------------------
Inv == TypeOk(st) /\ OnlyUnsyncedDiffers(st) /\ CacheBounded(st) /\ DeadIsClean(st)
Op == last'.o.op
Node(s) == s.nodes[last'.o.h]
\* success of a sync is never claimed for content that is not there
Honest == Op = "fsync" /\ last'.r.e = "ok" => Node(st').dur = Node(st).vol /\ Node(st').vol = Node(st).vol
\* a sync that fails loses nothing, and what still differs still counts as unsynced
Kept == Op \in {"fsync", "checkpoint"} /\ st'.alive => \A n \in {1, 2} : st'.nodes[n].vol = st.nodes[n].vol
\* an operation on one file, failing or not, leaves the other alone
Apart == Op \in {"fsync", "write", "ftruncate"} /\ st'.alive => LET m == 3 - last'.o.h IN st'.nodes[m] = st.nodes[m]
\* a short or failed write has changed nothing but what it was asked to
Partial == Op = "write" /\ last'.fail /\ st'.alive =>
   LET v == Node(st).vol
       w == Node(st').vol IN
   \A i \in DOMAIN w : \/ i <= Len(v) /\ w[i] = v[i]
                       \/ i > last'.o.off /\ i <= last'.o.off + Len(last'.o.d) /\ w[i] = last'.o.d[i - last'.o.off]
                       \/ i > Len(v) /\ w[i] = 0
Props == [][Honest /\ Kept /\ Apart /\ Partial]_<<st, last, steps>>
=============================================================================

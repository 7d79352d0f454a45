----------------------------- MODULE MCGeometry -----------------------------
(***************************************************************************)
(* C09: two LazyFS with different block sizes and pages, given the same     *)
(* operations, cannot be told apart as long as the data fits the cache.     *)
(***************************************************************************)
EXTENDS LazyFS
CONSTANTS BS1, BPP1, BS2, BPP2, MaxLen, MaxOps
VARIABLES s1, s2, r1, r2, steps

A == <<"a">>
B == <<"b">>
Fl == [creat |-> FALSE, excl |-> FALSE, trunc |-> FALSE, append |-> FALSE]
Start(cfg) == LET x == [StateWith(cfg) EXCEPT !.nodes = (1 :> FileNode(<<>>)) @@ (2 :> FileNode(<<>>)), !.names = (A :> 1) @@ (B :> 2)]
              IN NewFd(NewFd(x, 1, 1, A, Fl), 2, 2, B, Fl)
Both(o) == \E x \in Apply(s1, o, Empty), y \in Apply(s2, o, Empty) :
             s1' = x.s /\ s2' = y.s /\ r1' = x.r /\ r2' = y.r /\ steps' = steps + 1
Ops == {[op |-> "write", h |-> h, off |-> off, d |-> d] : h \in {1}, off \in 0 .. MaxLen - 1, d \in {<<1>>, <<1, 2>>, <<2, 2, 2>>}}
       \union {[op |-> "write", h |-> 2, off |-> 1, d |-> <<1, 2>>]}
       \union {[op |-> "read", h |-> h, off |-> off, n |-> 3] : h \in {1}, off \in {0, 1, 3}}
       \union {[op |-> "ftruncate", h |-> 1, n |-> n] : n \in 0 .. MaxLen}
       \union {[op |-> "fsync", h |-> h] : h \in {1, 2}}
       \union {[op |-> "clear"], [op |-> "checkpoint"], [op |-> "rename", p |-> B, q |-> A], [op |-> "link", p |-> A, q |-> <<"c">>], [op |-> "unlink", p |-> A]}
Init == s1 = Start([bs |-> BS1, bpp |-> BPP1, pages |-> 100, ev |-> FALSE]) /\ s2 = Start([bs |-> BS2, bpp |-> BPP2, pages |-> 100, ev |-> FALSE])
        /\ r1 = Ok /\ r2 = Ok /\ steps = 0
Next == \E o \in Ops : (o.op = "write" => o.off + Len(o.d) <= MaxLen) /\ Both(o)
Spec == Init /\ [][Next]_<<s1, s2, r1, r2, steps>>
Bound == steps < MaxOps
MCView == <<s1, s2, r1, r2>>
Seen(s) == [names |-> s.names, alive |-> s.alive, fds |-> s.fds,
            nodes |-> [n \in DOMAIN s.nodes |-> [k |-> s.nodes[n].k, vol |-> s.nodes[n].vol, dur |-> s.nodes[n].dur]]]
Alike == Seen(s1) = Seen(s2) /\ r1 = r2
=============================================================================

-------------------------------- MODULE Locks --------------------------------
(***************************************************************************)
(* C16: why operations and commands can be taken as atomic.  Every operation *)
(* works block by block: it takes the lock shared, does its steps, and gives *)
(* it back; a command (clear-cache, checkpoint) goes through all files block *)
(* by block with the lock to itself.  What is there when no operation on a   *)
(* file and no command is at work must be what whole operations and commands *)
(* in some order give: Atomic runs them in the order in which they let go of *)
(* the lock, on a copy (vol1, dur1) in which each is one step.               *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Workers,    \* each has a file of its own
          Blocks,     \* blocks 1 .. Blocks in every file
          MaxOps,     \* operations there are in all (a shared lock may keep a command waiting for as long as there are new ones)
          Alone       \* commands have the lock to themselves (FALSE shows that the invariant needs it)

Cmd == "cmd"
Threads == Workers \union {Cmd}
Kinds(t) == IF t = Cmd THEN {"clear", "checkpoint"} ELSE {"write", "fsync", "read"}

VARIABLES vol, dur,     \* file -> block -> value; a block is dirty if they differ
          vol1, dur1,   \* the same with atomic operations
          at,           \* thread -> [k: kind or "idle", v: value, todo: blocks to do, in: it has the lock, got: what a read saw]
          left          \* values not written yet
vars == <<vol, dur, vol1, dur1, at, left>>

Idle == [k |-> "idle", v |-> 0, todo |-> {}, in |-> FALSE, got |-> {}]
Zero == [w \in Workers |-> [b \in 1 .. Blocks |-> 0]]
Init == vol = Zero /\ dur = Zero /\ vol1 = Zero /\ dur1 = Zero /\ at = [t \in Threads |-> Idle] /\ left = MaxOps

Holders == {t \in Threads : at[t].in}
All(t) == IF t = Cmd THEN Workers \X (1 .. Blocks) ELSE {t} \X (1 .. Blocks)

Ask(t, k) == /\ at[t].k = "idle" /\ k \in Kinds(t)
             /\ (t # Cmd => left > 0) /\ left' = IF t # Cmd THEN left - 1 ELSE left
             /\ at' = [at EXCEPT ![t] = [Idle EXCEPT !.k = k, !.v = left, !.todo = All(t)]]
             /\ UNCHANGED <<vol, dur, vol1, dur1>>
Take(t) == /\ at[t].k # "idle" /\ ~at[t].in /\ at[t].todo # {}
           /\ IF Alone /\ t = Cmd THEN Holders = {} ELSE ~(Alone /\ Cmd \in Holders)
           /\ at' = [at EXCEPT ![t].in = TRUE] /\ UNCHANGED <<vol, dur, vol1, dur1, left>>
Step(t) == /\ at[t].in
           /\ \E x \in at[t].todo :
                LET w == x[1] b == x[2] IN
                /\ at' = [at EXCEPT ![t].todo = @ \ {x}, ![t].got = IF at[t].k = "read" THEN @ \union {<<b, vol[w][b]>>} ELSE @]
                /\ vol' = CASE at[t].k = "write" -> [vol EXCEPT ![w][b] = at[t].v]
                            [] at[t].k = "clear" -> [vol EXCEPT ![w][b] = dur[w][b]] [] OTHER -> vol
                /\ dur' = IF at[t].k \in {"fsync", "checkpoint"} THEN [dur EXCEPT ![w][b] = vol[w][b]] ELSE dur
           /\ UNCHANGED <<vol1, dur1, left>>
Leave(t) == /\ at[t].in /\ at[t].todo = {}
            /\ at' = [at EXCEPT ![t] = IF @.k = "read" THEN [@ EXCEPT !.in = FALSE] ELSE Idle]
            /\ vol1' = CASE at[t].k = "write" -> [vol1 EXCEPT ![t] = [b \in 1 .. Blocks |-> at[t].v]]
                         [] at[t].k = "clear" -> dur1 [] OTHER -> vol1
            /\ dur1' = CASE at[t].k = "fsync" -> [dur1 EXCEPT ![t] = vol1[t]]
                         [] at[t].k = "checkpoint" -> vol1 [] OTHER -> dur1
            /\ UNCHANGED <<vol, dur, left>>
\* a read has its lock back and its reply to give
Reply(t) == /\ at[t].k = "read" /\ ~at[t].in /\ at[t].todo = {}
            /\ at' = [at EXCEPT ![t] = Idle] /\ UNCHANGED <<vol, dur, vol1, dur1, left>>

Next == \E t \in Threads : (\E k \in Kinds(t) : Ask(t, k)) \/ Take(t) \/ Step(t) \/ Leave(t) \/ Reply(t)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A t \in Threads : SF_vars(Take(t)) /\ WF_vars(Step(t)) /\ WF_vars(Leave(t)) /\ WF_vars(Reply(t))

Same == \A w \in Workers : (~at[w].in /\ ~at[Cmd].in) => vol[w] = vol1[w] /\ dur[w] = dur1[w]
\* a read sees one write, whole
ReadsWhole == \A w \in Workers : at[w].k = "read" => Cardinality({x[2] : x \in at[w].got}) <= 1
Finished == \A t \in Threads : at[t].k # "idle" ~> at[t].k = "idle"
=============================================================================

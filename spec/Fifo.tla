--------------------------------- MODULE Fifo ---------------------------------
(***************************************************************************)
(* C15: from bytes in a pipe to commands carried out.  The operator appends *)
(* the bytes of its commands (each command: its number, Size(i) times, then *)
(* 0 for the newline), in pieces of any length, whenever there is room; the *)
(* worker reads pieces of any length, and takes a command when its line is  *)
(* complete: it carries it out (an effect), and acknowledges a clear-cache   *)
(* afterwards.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N,        \* commands
          Room,     \* bytes in the pipe
          Chunk     \* bytes the worker reads at once
VARIABLES sent, pipe, pending, done, acks, busy
vars == <<sent, pipe, pending, done, acks, busy>>

Size(i) == (i % 3)           \* one of them is empty
IsClear(i) == i % 2 = 0
Line(i) == [k \in 1 .. Size(i) + 1 |-> IF k <= Size(i) THEN i ELSE 0]
RECURSIVE All(_)
All(n) == IF n = 0 THEN <<>> ELSE All(n - 1) \o Line(n)
Stream == All(N)
Newline(q) == CHOOSE k \in DOMAIN q : q[k] = 0 /\ \A j \in 1 .. k - 1 : q[j] # 0
HasLine(q) == \E k \in DOMAIN q : q[k] = 0

Init == sent = 0 /\ pipe = <<>> /\ pending = <<>> /\ done = <<>> /\ acks = 0 /\ busy = <<>>
Send == \E n \in 1 .. Len(Stream) - sent :
          /\ Len(pipe) + n <= Room
          /\ pipe' = pipe \o SubSeq(Stream, sent + 1, sent + n) /\ sent' = sent + n
          /\ UNCHANGED <<pending, done, acks, busy>>
Read == /\ busy = <<>> /\ ~HasLine(pending) /\ pipe # <<>>
        /\ \E n \in 1 .. Chunk : /\ n <= Len(pipe)
             /\ pending' = pending \o SubSeq(pipe, 1, n) /\ pipe' = SubSeq(pipe, n + 1, Len(pipe))
        /\ UNCHANGED <<sent, done, acks, busy>>
Take == /\ busy = <<>> /\ HasLine(pending)
        /\ LET k == Newline(pending) IN
           /\ busy' = <<SubSeq(pending, 1, k - 1)>>
           /\ pending' = SubSeq(pending, k + 1, Len(pending))
        /\ UNCHANGED <<sent, pipe, done, acks>>
\* the effect, then the acknowledgement
Carry == /\ Len(busy) = 1 /\ done' = Append(done, busy[1]) /\ busy' = busy \o <<"done">>
         /\ UNCHANGED <<sent, pipe, pending, acks>>
Answer == /\ Len(busy) = 2 /\ busy' = <<>>
          /\ acks' = acks + (IF busy[1] # <<>> /\ IsClear(busy[1][1]) THEN 1 ELSE 0)
          /\ UNCHANGED <<sent, pipe, pending, done>>
Next == Send \/ Read \/ Take \/ Carry \/ Answer
Fair == Init /\ [][Next]_vars /\ WF_vars(Read) /\ WF_vars(Take) /\ WF_vars(Carry) /\ WF_vars(Answer) /\ WF_vars(Send)

-----------------------------------------------------------------------------
\* whole commands, each once, in order
Text(i) == SubSeq(Line(i), 1, Size(i))
InOrder == /\ Len(done) <= N
           /\ \A i \in DOMAIN done : done[i] = Text(i)
\* never more acknowledgements than clear-caches carried out, and at most the one just done is missing
Clears(n) == Cardinality({i \in 1 .. n : IsClear(i) /\ Size(i) > 0})
AckAfter == /\ acks <= Clears(Len(done))
            /\ (busy = <<>> => acks = Clears(Len(done)))
Finished == <>(Len(done) = N /\ acks = Clears(N) /\ pipe = <<>> /\ pending = <<>>)
=============================================================================

------------------------------ MODULE MCCommands ------------------------------
(***************************************************************************)
(* Every command that can be put together from good and bad attributes.     *)
(* One state each; the harness writes them all to the real FIFO.            *)
(***************************************************************************)
EXTENDS Commands, Json
VARIABLE c

A == <<"a">>
Crashes == [k : {"crash"}, op : FaultOps \union {"mkdir", "no", ""}, tm : {"before", "after", "during", "no", ""},
            fr : {"no", "ok", "bad"}, to : {"no", "ok", "bad"}, f : {<<>>}, t : {<<>>}, extra : BOOLEAN]
TornOps == [k : {"tornop"}, p : {A, <<>>}, parts : {-1, 0, 1, 3}, bytes : {<<>>, <<1>>, <<2, 1>>, <<0, 1>>},
            persist : {<<>>, <<0>>, <<1>>, <<2>>, <<1, 3>>, <<3, 1, 1>>}, occ : {0, 1, 2}, bad : {FALSE}, extra : BOOLEAN]
TornSeqs == [k : {"tornseq"}, op : {"write", "read", "no", ""}, p : {A, <<>>}, persist : {<<>>, <<0>>, <<1>>, <<2, 1>>, <<1, 0>>}, occ : {0, 1, 2},
             bad : {FALSE}, extra : BOOLEAN]
Init == c \in Crashes \union TornOps \union TornSeqs
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
Emit == PrintT("C " \o ToJson([c |-> c, ok |-> Accepts(c)]))

\* what is accepted is a fault as the specification of faults wants it, and arming it changes nothing else
S0 == [StateWith([bs |-> 1, bpp |-> 1, pages |-> 4, ev |-> FALSE]) EXCEPT !.nodes = (1 :> FileNode(<<1>>)), !.names = (A :> 1)]
Wellformed == Accepts(c) => LET f == FaultOf(c) IN
   /\ (c.k = "crash" => f.op \in FaultOps /\ f.tm \in {"before", "after"} /\ (f.op \notin TwoPaths => f.t = AnyPath))
   /\ (c.k # "crash" => f.persist # {} /\ f.occ >= 1)
   /\ (c.k = "tornop" => (f.parts = 0) # (f.bytes = <<>>) /\ SetMax(f.persist) <= MaxOf(f.parts, Len(f.bytes)))
Harmless == \A s \in Carry(S0, c) : /\ s.nodes = S0.nodes /\ s.alive
                                    /\ (~Accepts(c) => s = S0)
                                    /\ (Accepts(c) => s # S0)
=============================================================================

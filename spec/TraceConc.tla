------------------------------ MODULE TraceConc ------------------------------
(***************************************************************************)
(* C16: recorded runs with many requests in flight.  An event is a call     *)
(* (with the operation, and the reply it will get), a return, or an         *)
(* observation while nothing is in flight.  A run is accepted if every      *)
(* operation can be given one instant between its call and its return so    *)
(* that the operations in this order are a behaviour of LazyFS.tla with     *)
(* these replies and observations.  Faults around an operation, and the end *)
(* of the process, may have instants of their own before and after it.      *)
(***************************************************************************)
EXTENDS TraceLazyFS

VARIABLE pend   \* the operations in flight: number -> [o, r, begun, lin, late]

Events == Runs[run].ev
E == Events[pos]
\* what the backing directory held when there was next time to look
NextObs == LET k == CHOOSE k \in pos .. Len(Events) : Events[k].t = "obs" /\ \A j \in pos .. k - 1 : Events[j].t # "obs" IN Events[k]
Own(s, o, seen) == IF o.op = "fsync" THEN [n \in {s.fds[o.h].n} \intersect DOMAIN seen |-> seen[n]] ELSE seen

\* the results of operation o, which will be (or would have been) answered r
Possible(s, o, r) ==
  CASE o.op = "usage"  -> IF r.e = "ok" /\ UsageOk(s, r.v[1]) THEN {[s |-> s, r |-> r]} ELSE {}
    [] o.op = "report" -> IF r.e = "ok" /\ r.v[1] = ReportTotal(s) THEN {[s |-> s, r |-> r]} ELSE {}
    [] o.op = "peek" -> LET x == CHOOSE x \in DoStat(s, o.p) : TRUE IN
                        IF x.r.e = r.e /\ (r.e = "ok" => r.v = [k |-> x.r.v.k, nl |-> x.r.v.nl]) THEN {x} ELSE {}
    [] OTHER -> IF r.e = "DEAD" THEN Apply(s, o, Empty) \union (IF o.op \in {"fsync", "checkpoint"} THEN ApplyFailing(s, o, Own(s, o, SeenIn(s, NextObs.b))) ELSE {})
                ELSE {x \in Apply(s, o, Empty) : ReplyMatches(x.r, r)}

\* the faults that may come after this at all
CouldCome(l) == \/ l.op = "end"
                \/ \E i \in DOMAIN st.clear : st.clear[i].tm = "after" /\ ClearMatches(st.clear[i], l.op, l.p, l.q)
                \/ \E i \in DOMAIN Events : Events[i].t \in {"call", "op"} /\ Events[i].o.op = "crash"
                                            /\ Matches(CrashOf(Events[i].o.f), l.op, "after", l.p, l.q)
Come(s, l) == IF l.op = "end" THEN Die(s) ELSE Fire(s, l.op, "after", l.p, l.q)
Normal(s) == [s EXCEPT !.step = "all", !.late = <<>>]

CInit == Init /\ pend = Empty
Call == /\ E.t = "call"
        /\ pend' = (E.i :> [o |-> Op(E.o), r |-> E.r, begun |-> FALSE, lin |-> FALSE, late |-> <<>>]) @@ pend
        /\ pos' = pos + 1 /\ UNCHANGED <<run, st>>
\* an instant may be put off until something returns
Ready == E.t = "ret" /\ st.alive
Begin(i) == /\ Ready /\ ~pend[i].begun /\ ~pend[i].lin /\ pend[i].o.op \notin {"usage", "report", "peek"}
            /\ \E k \in DOMAIN st.clear : st.clear[k].tm = "before" /\ ~st.clear[k].crash
            /\ \E x \in Apply([st EXCEPT !.step = "before"], pend[i].o, Empty) : x.r = Begun /\ st' = Normal(x.s)
            /\ pend' = [pend EXCEPT ![i].begun = TRUE] /\ UNCHANGED <<run, pos>>
Instant(i) == /\ Ready /\ ~pend[i].lin
              /\ \E x \in Possible([st EXCEPT !.step = IF pend[i].begun THEN "rest" ELSE "most"], pend[i].o, pend[i].r) :
                   /\ st' = Normal(x.s)
                   /\ pend' = [pend EXCEPT ![i].lin = TRUE, ![i].late = SelectSeq(x.s.late, CouldCome)]
              /\ UNCHANGED <<run, pos>>
Later(i) == /\ Ready /\ pend[i].late # <<>>
            /\ st' = Come(st, Head(pend[i].late))
            /\ pend' = [pend EXCEPT ![i].late = Tail(@)] /\ UNCHANGED <<run, pos>>
Return == /\ E.t = "ret"
          /\ IF pend[E.i].r.e = "DEAD" THEN ~st.alive ELSE pend[E.i].lin /\ pend[E.i].late = <<>>
          /\ pend' = [i \in DOMAIN pend \ {E.i} |-> pend[i]]
          /\ pos' = pos + 1 /\ UNCHANGED <<run, st>>
Look == /\ E.t = "obs" /\ Observed(st, E)
        /\ pos' = pos + 1 /\ UNCHANGED <<run, st, pend>>
        /\ (pos = Len(Events) => PrintT("A " \o ToString(run)))
Alone == /\ E.t = "op"   \* nothing else in flight
         /\ \E x \in Apply(st, Op(E.o), Empty) : ReplyMatches(x.r, E.r) /\ st' = x.s
         /\ pos' = pos + 1 /\ UNCHANGED <<run, pend>>
CNext == /\ pos <= Len(Events)
         /\ (Diagnose => PrintT("D " \o ToJson([pos |-> pos, may |-> {[names |-> {[p |-> p, x |-> st.nodes[st.names[p]]] : p \in DOMAIN st.names},
                                                   alive |-> st.alive, inflight |-> {pend[i].o : i \in {j \in DOMAIN pend : ~pend[j].lin}}]}])))
         /\ \/ Call \/ Return \/ Look \/ Alone
            \/ \E i \in DOMAIN pend : Begin(i) \/ Instant(i) \/ Later(i)
CSpec == CInit /\ [][CNext]_<<run, pos, st, pend>>
=============================================================================

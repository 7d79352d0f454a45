------------------------------ MODULE TraceTimes ------------------------------
(***************************************************************************)
(* Checks recorded runs with times, modes and owners against Times.tla.     *)
(* Besides what TraceLazyFS knows, there is for each file, directory and     *)
(* link after each step (t) what the backing directory has (dm, da, mode,    *)
(* own), and for some what stat says (vm, va, vmode, vown; ino: is it the     *)
(* inode of the backing file).                                              *)
(***************************************************************************)
EXTENDS TraceLazyFS, Times

VARIABLE ti

InitTimes(R) == [i \in DOMAIN R.init |->
                   [Stamp({R.init[i].dm}, {R.init[i].da}, {R.init[i].dm}, {R.init[i].da}, {R.init[i].mode}, {R.init[i].own}) EXCEPT !.same = TRUE]]

NodeOfEntry(s, x) == s.names[x.p]
Looked(x) == Has(x, "vm")
TimesOk(s, t, x) ==
  /\ x.p \in DOMAIN s.names
  /\ LET c == t[NodeOfEntry(s, x)] IN
     /\ x.dm \in c.dm /\ x.da \in c.da /\ x.mode \in c.mode /\ x.own \in c.own
     /\ (Looked(x) => /\ x.vm \in c.vm /\ x.va \in c.va /\ x.ino
                      /\ x.vmode = x.mode /\ x.vown = x.own
                      /\ (c.same => x.vm = x.dm /\ x.va = x.da))
\* names of one file agree
Agree(s, obs) ==
  \A i, j \in DOMAIN obs : NodeOfEntry(s, obs[i]) = NodeOfEntry(s, obs[j]) =>
     /\ obs[i].dm = obs[j].dm /\ obs[i].da = obs[j].da
     /\ (Looked(obs[i]) /\ Looked(obs[j]) => obs[i].vm = obs[j].vm /\ obs[i].va = obs[j].va)
\* what is known after that
Narrow(s, t, obs) ==
  LET Of(n) == {i \in DOMAIN obs : NodeOfEntry(s, obs[i]) = n}
      Seen(n) == {i \in Of(n) : Looked(obs[i])}
      N(n) == IF Of(n) = {} THEN t[n]
              ELSE LET x == obs[CHOOSE i \in Of(n) : TRUE]
                       c == [t[n] EXCEPT !.dm = {x.dm}, !.da = {x.da}, !.vm = IF t[n].same THEN {x.dm} ELSE @, !.va = IF t[n].same THEN {x.da} ELSE @]
                   IN IF Seen(n) = {} THEN c
                      ELSE LET y == obs[CHOOSE i \in Seen(n) : TRUE] IN [c EXCEPT !.vm = {y.vm}, !.va = {y.va}]
  IN [n \in DOMAIN t |-> N(n)]
TimesObserved(x, e) ==
  /\ Len(e.t) = Cardinality(Shown(x.s))
  /\ \A i \in DOMAIN e.t : TimesOk(x.s, x.t, e.t[i])
  /\ Agree(x.s, e.t)

TimedResults(e, now) == ApplyTimed(st, ti, Op(e.o), now, Empty)
TInit == Init /\ ti = InitTimes(Runs[run])
TNext == /\ pos <= Len(Runs[run].ev)
         /\ LET e == Runs[run].ev[pos] IN
            /\ (Diagnose => PrintT("D " \o ToJson([pos |-> pos, may |-> {[r |-> x.r, alive |-> x.s.alive,
                     names |-> {[p |-> p, x |-> x.s.nodes[x.s.names[p]], t |-> x.t[x.s.names[p]]] : p \in DOMAIN x.s.names}] : x \in TimedResults(e, pos)}])))
            /\ \E x \in TimedResults(e, pos) :
                 /\ ReplyMatches(x.r, e.r) /\ Observed(x.s, e) /\ TimesObserved(x, e)
                 /\ st' = x.s /\ ti' = Narrow(x.s, x.t, e.t)
         /\ pos' = pos + 1
         /\ run' = run
         /\ (pos = Len(Runs[run].ev) => PrintT("A " \o ToString(run)))
TSpec == TInit /\ [][TNext]_<<run, pos, st, ti>>
=============================================================================

----------------------------- MODULE TraceLazyFS -----------------------------
(***************************************************************************)
(* Checks recorded runs of the real LazyFS against LazyFS.tla.  traces.json *)
(* is a list of runs; a run has the configuration, the files there were at  *)
(* the start and its events.  An event is an operation, the reply, and what *)
(* was observed after it: always the backing directory (b) and whether      *)
(* LazyFS lives (a); if asked for, the mounted view (m), the content through *)
(* each open handle (f), the pages in use (u) and the unsynced-data report. *)
(* A run is accepted if the specification can take all its steps with these *)
(* observations; "ACC" is printed for it.                                   *)
(***************************************************************************)
EXTENDS Commands, Json

CONSTANT Diagnose
Runs == JsonDeserialize("traces.json")
VARIABLES run, pos, st

ToSet(x) == {x[i] : i \in DOMAIN x}
CrashOf(f) == [op |-> f.op, tm |-> f.tm, f |-> ToSet(f.f), t |-> ToSet(f.t)]
TopOf(f) == [p |-> f.p, parts |-> f.parts, bytes |-> f.bytes, persist |-> ToSet(f.persist), occ |-> f.occ, cnt |-> 0]
TsqOf(f) == [p |-> f.p, persist |-> ToSet(f.persist), occ |-> f.occ, cnt |-> 0, grp |-> 0, pend |-> NoPend]
ClearOf(c) == [op |-> c.op, tm |-> c.tm, p |-> c.p, q |-> c.q, occ |-> c.occ, crash |-> c.crash, cnt |-> 0]
Map(F(_), q) == [i \in DOMAIN q |-> F(q[i])]
Op(o) == CASE o.op = "crash" -> [o EXCEPT !.f = CrashOf(o.f)]
           [] o.op = "tornop" -> [o EXCEPT !.f = TopOf(o.f)]
           [] o.op = "tornseq" -> [o EXCEPT !.f = TsqOf(o.f)]
           [] o.op = "start" -> [op |-> "start", cfg |-> o.cfg, clear |-> Map(ClearOf, o.clear), top |-> Map(TopOf, o.top), tsq |-> Map(TsqOf, o.tsq)]
           [] o.op = "part" -> [op |-> "nothing"]   \* part of a line in the FIFO
           [] OTHER -> o

-----------------------------------------------------------------------------
(* The start: files as they were found in the backing directory (no hard links yet) *)
NodeOf(x) == CASE x.k = "f" -> FileNode(x.c) [] x.k = "d" -> DirNode [] x.k = "l" -> LinkNode(x.t)
InitState(R) ==
  [StateWith(R.cfg) EXCEPT !.nodes = [i \in DOMAIN R.init |-> NodeOf(R.init[i])],
                           !.names = [p \in {R.init[i].p : i \in DOMAIN R.init} |-> CHOOSE i \in DOMAIN R.init : R.init[i].p = p],
                           !.clear = Map(ClearOf, R.clear), !.top = Map(TopOf, R.top), !.tsq = Map(TsqOf, R.tsq)]

Shown(s) == {p \in DOMAIN s.names : ~IsHidden(p)}
EntryOk(s, x, Content(_)) ==
  /\ x.p \in Shown(s)
  /\ LET n == s.nodes[s.names[x.p]] IN
     /\ x.k = n.k
     /\ (n.k # "d" => x.nl = NLinks(s, x.p))
     /\ (n.k = "f" => x.c = Content(n))
     /\ (n.k = "l" => x.t = n.tgt)
DirOk(s, obs, Content(_)) == /\ Cardinality(Shown(s)) = Len(obs)
                             /\ \A i \in DOMAIN obs : EntryOk(s, obs[i], Content)
BackOk(s, obs) == DirOk(s, obs, LAMBDA n : n.dur)
MountOk(s, obs) == DirOk(s, obs, LAMBDA n : n.vol)
FdsOk(s, obs) == \A i \in DOMAIN obs : obs[i].h \in DOMAIN s.fds /\ obs[i].c = s.nodes[s.fds[obs[i].h].n].vol

\* runs of unsynced blocks, as the report prints them
RunsOf(s, n, U) ==
  {[a |-> a, b |-> b, n |-> CellsOf(s, n, a .. b)] :
      a \in {x \in U : x - 1 \notin U}, b \in {x \in U : x + 1 \notin U}}
GoodRuns(s, n, U) == {r \in RunsOf(s, n, U) : r.a <= r.b /\ (r.a .. r.b) \subseteq U}
BlocksIn(f) == UNION {f.runs[i].a .. f.runs[i].b : i \in DOMAIN f.runs}
NamedSo(s, n, f) == /\ {p \in ToSet(f.names) : p # <<"~h">>} = {p \in NamesOf(s, n) : ~IsHidden(p)}
                    /\ Len(f.names) = Cardinality(NamesOf(s, n))
RunsAre(s, n, f, U) == ToSet(f.runs) = GoodRuns(s, n, U) /\ Len(f.runs) = Cardinality(GoodRuns(s, n, U))
\* a file with an armed torn fault may be left out (LazyFS says so): not asked for in such runs
ReportOk(s, rep) ==
  IF ~s.cfg.ev THEN
    /\ Len(rep.files) = Cardinality(Unsynced(s))
    /\ \A i \in DOMAIN rep.files : \E n \in Unsynced(s) : NamedSo(s, n, rep.files[i]) /\ RunsAre(s, n, rep.files[i], s.nodes[n].ub)
    /\ rep.total = ReportTotal(s)
  ELSE \* some of ub have been evicted, which is as good as synced: what differs is reported, what was synced is not
    LET Of(f) == {n \in Unsynced(s) : NamedSo(s, n, f) /\ RunsAre(s, n, f, BlocksIn(f))}
        Must(n) == Differ(s.nodes[n].vol, s.nodes[n].dur, s.cfg.bs)
    IN /\ \A i \in DOMAIN rep.files : \E n \in Of(rep.files[i]) :
            /\ BlocksIn(rep.files[i]) # {} /\ BlocksIn(rep.files[i]) \subseteq s.nodes[n].ub /\ Must(n) \subseteq BlocksIn(rep.files[i])
       /\ \A n \in Files(s) : Must(n) # {} => \E i \in DOMAIN rep.files : n \in Of(rep.files[i])
       /\ \A i, j \in DOMAIN rep.files : i # j => Of(rep.files[i]) \cap Of(rep.files[j]) = {}
       /\ rep.total = SumOver(DOMAIN rep.files, [i \in DOMAIN rep.files |->
                        SumOver(Of(rep.files[i]), [n \in Of(rep.files[i]) |-> CellsOf(s, n, BlocksIn(rep.files[i]))])])
       /\ SumOver(DOMAIN rep.files, [i \in DOMAIN rep.files |-> Cardinality(BlocksIn(rep.files[i]))]) <= s.cfg.pages * s.cfg.bpp

Has(e, k) == k \in DOMAIN e
Observed(s, e) ==
  /\ s.alive = e.a
  /\ (Has(e, "b") => BackOk(s, e.b))
  /\ (Has(e, "m") => MountOk(s, e.m))
  /\ (Has(e, "f") => FdsOk(s, e.f))
  /\ (Has(e, "u") => UsageOk(s, e.u))
  /\ (Has(e, "rep") => ReportOk(s, e.rep))

SeenIn(s, obs) == [n \in {s.names[obs[i].p] : i \in {j \in DOMAIN obs : obs[j].k = "f" /\ obs[j].p \in DOMAIN s.names}} |->
                     obs[CHOOSE j \in DOMAIN obs : obs[j].p \in DOMAIN s.names /\ s.names[obs[j].p] = n].c]
\* x: a call below LazyFS failed during this operation ("err"), or LazyFS was killed at one ("kill")
OutOk(s, c, x) == IF c.k = "usage" THEN Has(x, "u") /\ UsageOk(s, x.u) ELSE Has(x, "rep") /\ ReportOk(s, x.rep)
\* what clears have acknowledged has happened: h, if not 0, was asked for its size at once
AfterCmds(s, e) ==
  {[s |-> y, r |-> OkV(<<Acks(e.o.cs)>> \o (IF e.o.h = 0 THEN <<>> ELSE <<Len(y.nodes[y.fds[e.o.h].n].vol)>>))] :
      y \in CarryAll(s, e.o.cs, e.out, OutOk)}
OpResults(s, e) ==
  LET o == Op(e.o)
      seen == SeenIn(s, e.b)
      may == IF s.cfg.ev THEN seen ELSE Empty
  IN IF ~Has(e, "x") THEN Apply(s, o, may)
     ELSE IF e.x = "err" THEN Apply(s, o, may) \union ApplyFailing(s, o, seen)
     ELSE Killed(s, o, IF s.cfg.ev \/ o.op \in {"write", "fsync", "checkpoint", "ftruncate", "truncate"} THEN seen ELSE Empty)
Results(s, e) == IF e.o.op = "cmds" THEN AfterCmds(s, e) ELSE OpResults(s, e)

-----------------------------------------------------------------------------
Init == /\ run \in DOMAIN Runs /\ pos = 1 /\ st = InitState(Runs[run])
Next == /\ pos <= Len(Runs[run].ev)
        /\ LET e == Runs[run].ev[pos] IN
           /\ (Diagnose => PrintT("D " \o ToJson([pos |-> pos, may |-> {[r |-> x.r, alive |-> x.s.alive,
                    names |-> {[p |-> p, x |-> x.s.nodes[x.s.names[p]], nl |-> NLinks(x.s, p)] : p \in DOMAIN x.s.names}] : x \in Results(st, e)}])))
           /\ \E x \in Results(st, e) :
                /\ ReplyMatches(x.r, e.r) /\ Observed(x.s, e)
                /\ st' = x.s
        /\ pos' = pos + 1
        /\ run' = run
        /\ (pos = Len(Runs[run].ev) => PrintT("A " \o ToString(run)))
Spec == Init /\ [][Next]_<<run, pos, st>>
\* every state of an accepted run is a good one
Inv == TypeOk(st) /\ OnlyUnsyncedDiffers(st) /\ CacheBounded(st) /\ DeadIsClean(st)
=============================================================================

-------------------------------- MODULE Times --------------------------------
(***************************************************************************)
(* Access and modification times, modes and owners of files: what stat says  *)
(* (v: as LazyFS has it, d: as the backing file has it).  A time is a number *)
(* that stands for a value an application has set, or the number of the step *)
(* whose operation set it to what the clock said.                           *)
(*                                                                         *)
(* Each field holds the SET of values that are possible (several where       *)
(* LazyFS or the file system below it is free, as with the access times of   *)
(* files read); sameTime: times of v and d are the same, one of the set.     *)
(* Operations besides those of LazyFS.tla: utimens (a, m: 0 to leave it, -1   *)
(* for the time it is, or the value), chmod, chown.                          *)
(***************************************************************************)
EXTENDS LazyFS

Omit == 0
AtNow == -1
Stamp(vm, va, dm, da, mode, own) == [vm |-> vm, va |-> va, dm |-> dm, da |-> da, mode |-> mode, own |-> own, same |-> FALSE]
Fresh(now, mode, own) == [Stamp({now}, {now}, {now}, {now}, {mode}, {own}) EXCEPT !.same = TRUE]

TimeOps == {"utimens", "chmod", "chown"}
\* the node an operation is about, 0 if there is none
TimesTarget(s, o) ==
  CASE o.op \in {"write", "read", "ftruncate", "fsync"} -> s.fds[o.h].n
    [] o.op \in TimeOps /\ o.h # 0 -> s.fds[o.h].n
    [] o.op \in TimeOps \union {"truncate", "open"} -> IF o.p \in DOMAIN s.names THEN s.names[o.p] ELSE 0
    [] OTHER -> 0
\* the directories of which an entry comes or goes
TouchedDirs(s, o) ==
  CASE o.op \in {"open", "unlink", "mkdir", "rmdir"} -> {Parent(o.p)}
    [] o.op \in {"link", "symlink"} -> {Parent(o.q)}
    [] o.op = "rename" -> {Parent(o.p), Parent(o.q)}
    [] o.op = "close" -> {Parent(s.fds[o.h].p)}
    [] OTHER -> {}

\* the effect of o, taking s to y, on the times of node n; c: what they were.  Without faults around operations.
TimesOfContent(s, y, n, c, size, now) ==
  LET \* everything fits into the cache
      roomy == ~s.cfg.ev /\ TotalCached(y) < Pages(s)
  IN [c EXCEPT !.vm = IF size THEN {now} ELSE @ \union {now}, !.da = @ \union {now}, !.dm = IF roomy THEN @ ELSE @ \union {now}]
TimesSynced(c) == [c EXCEPT !.dm = c.vm, !.da = c.va, !.same = TRUE]
TimesSet(c, o, now) ==
  LET Val(x) == IF x = AtNow THEN {now} ELSE {x} IN
  [c EXCEPT !.vm = IF o.m = Omit THEN @ ELSE Val(o.m), !.dm = IF o.m = Omit THEN @ ELSE Val(o.m),
            !.va = IF o.a = Omit THEN @ ELSE Val(o.a), !.da = IF o.a = Omit THEN @ ELSE Val(o.a)]
OnTarget(s, y, n, c, o, now) ==
  CASE o.op = "write" /\ o.d # <<>> -> TimesOfContent(s, y, n, c, TRUE, now)
    [] o.op \in {"ftruncate", "truncate"} -> TimesOfContent(s, y, n, c, o.n # Len(s.nodes[n].vol), now)
    [] o.op = "open" /\ o.fl.trunc -> TimesOfContent(s, y, n, c, s.nodes[n].vol # <<>>, now)
    [] o.op = "read" -> [c EXCEPT !.va = @ \union {now}, !.da = @ \union {now}]
    [] o.op = "fsync" -> IF o.data THEN [c EXCEPT !.dm = @ \union c.vm \union {now}, !.da = @ \union c.va] ELSE TimesSynced(c)
    [] o.op = "utimens" -> TimesSet(c, o, now)
    [] o.op = "chmod" -> [c EXCEPT !.mode = {o.mode}]
    [] o.op = "chown" -> [c EXCEPT !.own = {o.own}]
    [] OTHER -> c

TimesLost(c) == [c EXCEPT !.vm = c.dm, !.va = c.da, !.same = TRUE]
\* all times after a step that succeeded
TimesAfter(s, t, o, y, now) ==
  LET touched == IF y.names = s.names THEN {} ELSE {y.names[d] : d \in TouchedDirs(s, o) \cap DOMAIN y.names}
      target == TimesTarget(s, o)
      TimesOf(n) ==
        IF n \notin DOMAIN t THEN Fresh(now, IF "mode" \in DOMAIN o THEN o.mode ELSE 511, <<0, 0>>)
        ELSE LET c0 == [t[n] EXCEPT !.same = FALSE]
                 isfile == y.nodes[n].k = "f"
                 c1 == IF n = target THEN OnTarget(s, y, n, c0, o, now) ELSE c0
                 \* blocks of others may be evicted
                 c2 == IF isfile /\ s.cfg.ev /\ o.op \in {"write", "read", "ftruncate", "truncate", "open"}
                       THEN [c1 EXCEPT !.dm = @ \union {now}, !.da = @ \union {now}] ELSE c1
                 c3 == CASE o.op \in {"clear", "kill", "start"} -> TimesLost(c2)
                         [] o.op = "checkpoint" /\ isfile -> TimesSynced(c2)
                         [] OTHER -> c2
                 c4 == IF n \in touched THEN [c3 EXCEPT !.vm = {now}, !.dm = {now}] ELSE c3
                 \* a directory that moves
                 c5 == IF ~isfile /\ o.op = "rename" THEN [c4 EXCEPT !.vm = @ \union {now}, !.dm = @ \union {now}] ELSE c4
             IN \* directories and links are read at any time; there is nothing of them in the cache
                IF isfile THEN c5 ELSE [c5 EXCEPT !.va = @ \union {now}, !.da = @ \union {now}, !.same = TRUE]
  IN [n \in DOMAIN y.nodes |-> TimesOf(n)]

DoTime(s, o) ==
  IF o.h # 0 THEN One(s, Ok)
  ELSE LET w == Walk(s, Parent(o.p)) IN
       IF w # "ok" THEN One(s, Err(w)) ELSE IF o.p \notin DOMAIN s.names THEN One(s, Err("ENOENT")) ELSE One(s, Ok)

\* sets of [s, t, r]
ApplyTimed(s, t, o, now, seen) ==
  {[s |-> x.s, r |-> x.r, t |-> TimesAfter(s, t, IF x.r.e \in {"ok", "DEAD"} THEN o ELSE [op |-> "nothing"], x.s, now)] :
     x \in IF o.op \in TimeOps THEN DoTime(s, o) ELSE Apply(s, o, seen)}
=============================================================================

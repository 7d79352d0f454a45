------------------------------- MODULE Failing -------------------------------
(***************************************************************************)
(* C17: what may happen when a call that LazyFS makes to the file system    *)
(* below it is refused or cut short during an operation, and when LazyFS is *)
(* killed in the middle of one.  Results of the operation as such (Apply)   *)
(* are allowed too: LazyFS may not have needed the call, or tried again.    *)
(* `seen` is what the backing files hold afterwards (node -> content).      *)
(***************************************************************************)
EXTENDS LazyFS

At(q, i) == IF i <= Len(q) THEN q[i] ELSE 0
SeenOf(s, n, seen) == IF n \in DOMAIN seen THEN seen[n] ELSE s.nodes[n].dur
\* part of what was to be persisted has been
Mixed(w, d, v) == /\ Len(w) >= MinOf(Len(d), Len(v)) /\ Len(w) <= MaxOf(Len(d), Len(v))
                  /\ \A i \in DOMAIN w : w[i] = At(d, i) \/ w[i] = At(v, i)
Found(s, seen) == [s EXCEPT !.nodes = [n \in DOMAIN s.nodes |-> IF s.nodes[n].k = "f" THEN [s.nodes[n] EXCEPT !.dur = SeenOf(s, n, seen)] ELSE s.nodes[n]]]
Failed == Err("ERR")

\* a sync of the files N that did not succeed: the view stays, and stays unsynced
SyncFails(s, N, seen) ==
  IF \A n \in Files(s) : LET x == s.nodes[n] w == SeenOf(s, n, seen) IN IF n \in N THEN Mixed(w, x.dur, x.vol) ELSE w = x.dur
  THEN {Found(s, seen)} ELSE {}

\* a write or growth of n that got only so far that its view is v2; B: the blocks it was about
PutFails(s, n, v2, B, seen) ==
  LET x == s.nodes[n]
      w == SeenOf(s, n, seen)
      new == B \ x.cb
      With(S, T) == [s EXCEPT !.nodes[n].vol = v2, !.nodes[n].dur = w, !.nodes[n].cb = @ \union S, !.nodes[n].ub = @ \union S \union T]
      Good(y) == /\ \A m \in Files(s) : m # n => SeenOf(s, m, seen) = s.nodes[m].dur
                 /\ Len(w) >= Len(x.dur) /\ Len(w) <= MaxOf(Len(x.dur), Len(v2))
                 /\ \A i \in DOMAIN w : w[i] = At(x.dur, i) \/ (w[i] = At(v2, i) /\ (i - 1) \div s.cfg.bs \notin x.cb)
                 /\ Differ(v2, w, s.cfg.bs) \subseteq y.nodes[n].ub
                 /\ (w # x.dur => TotalCached(y) >= Pages(s))
                 /\ TotalCached(y) <= Pages(s) * s.cfg.bpp
      e == [Found(s, seen) EXCEPT !.nodes[n].vol = v2, !.nodes[n].cb = @ \union B, !.nodes[n].ub = @ \union B]
  IN IF s.cfg.ev THEN IF /\ \A m \in Files(s) : EvictOk(SeenOf(s, m, seen), s.nodes[m].dur, s.nodes[m].vol, e.nodes[m].vol, KeptWrites(s))
                         /\ DirtyBlocks(e) <= Pages(s) * s.cfg.bpp
                      THEN {e} ELSE {}
     ELSE {y \in {With(S, T) : S \in SUBSET new, T \in SUBSET (B \intersect x.cb)} : Good(y)}

\* zeros before the data may be there already
Grown(v, n) == {Resize(v, k) : k \in Len(v) .. MaxOf(n, Len(v))}
WriteFails(s, h, off0, d, seen) ==
  LET f == s.fds[h]
      v == s.nodes[f.n].vol
      off == IF f.app THEN Len(v) ELSE off0
      B == Blocks(MinOf(off, Len(v)), off + Len(d), s.cfg.bs)
  IN UNION {{[s |-> y, r |-> Failed] : y \in PutFails(s, f.n, v2, B, seen)} : v2 \in Grown(v, off)}
     \union UNION {{[s |-> y, r |-> OkV(<<k>>)] : y \in PutFails(s, f.n, Splice(v, off, SubSeq(d, 1, k)), B, seen)} : k \in 1 .. Len(d) - 1}
GrowFails(s, n, size, seen) ==
  LET v == s.nodes[n].vol IN
  UNION {{[s |-> y, r |-> Failed] : y \in PutFails(s, n, v2, Blocks(Len(v), size, s.cfg.bs), seen)} : v2 \in Grown(v, size)}

ApplyFailing(s, o, seen) ==
  CASE o.op = "fsync" -> {[s |-> y, r |-> Failed] : y \in SyncFails(s, {s.fds[o.h].n}, seen)}
    [] o.op = "checkpoint" -> {[s |-> y, r |-> Ok] : y \in SyncFails(s, Files(s), seen)}
    [] o.op = "write" -> WriteFails(s, o.h, o.off, o.d, seen)
    [] o.op = "ftruncate" -> GrowFails(s, s.fds[o.h].n, o.n, seen)
    [] o.op = "truncate" -> IF o.p \in DOMAIN s.names THEN GrowFails(s, s.names[o.p], o.n, seen) ELSE {}
    [] o.op \in {"open", "read", "unlink", "rename", "link", "symlink", "mkdir", "rmdir", "access", "readlink", "stat"} -> One(s, Failed)
    [] OTHER -> {}

\* killed within the operation: it had happened, in part, or not at all
Killed(s, o, seen) == {[s |-> Die(x.s), r |-> Dead] : x \in Apply(s, o, seen) \union ApplyFailing(s, o, seen) \union One(s, Ok)}

Errors == {"EIO", "ENOSPC", "EDQUOT", "EACCES", "EMFILE", "EROFS", "ENOMEM", "EFBIG", "EPERM"}
ReplyMatches(r, got) == IF r.e = "ERR" THEN got.e \in Errors ELSE got.e = r.e /\ (r.e = "ok" => got.v = r.v)
=============================================================================

------------------------------- MODULE LazyFS -------------------------------
(***************************************************************************)
(* The contract of LazyFS: what an application, an operator and the backing *)
(* directory can observe.                                                   *)
(*                                                                         *)
(* A state is one record (StateType below), and every operation is an       *)
(* operator  Op(s, args)  that gives the set of its allowed results, each   *)
(* [s |-> next state, r |-> reply].  Most operations have one result; the   *)
(* freedom LazyFS has is which data reaches the backing file early when the *)
(* cache is full (and, with eviction, what is evicted).                     *)
(*                                                                         *)
(* File contents are sequences of cells.  A cell is an atom of data: 0 is   *)
(* zero bytes, any other number a pattern the driver turns into one or more *)
(* bytes.  A block is cfg.bs cells, a page is cfg.bpp blocks of one file.   *)
(*                                                                         *)
(* vol - what the application sees;  dur - what the backing file holds.     *)
(* cb  - the blocks with a page in the cache, ub - those never synced.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> 0]
MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Range(f) == {f[x] : x \in DOMAIN f}
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
CeilDiv(a, b) == (a + b - 1) \div b

-----------------------------------------------------------------------------
(* Contents *)

Zeros(n) == [i \in 1..n |-> 0]
Resize(v, n) == IF n <= Len(v) THEN SubSeq(v, 1, n) ELSE v \o Zeros(n - Len(v))
Splice(v, off, d) ==
  IF d = <<>> THEN v
  ELSE LET w == Resize(v, MaxOf(Len(v), off + Len(d)))
       IN [i \in 1..Len(w) |-> IF i > off /\ i <= off + Len(d) THEN d[i - off] ELSE w[i]]
Slice(v, off, n) == SubSeq(v, off + 1, MinOf(off + n, Len(v)))
\* the blocks that cells lo..hi-1 (counted from 0) lie in
Blocks(lo, hi, bs) == IF lo < hi THEN (lo \div bs) .. ((hi - 1) \div bs) ELSE {}
\* v, with the cells lo..hi-1 that lie in a block of S as in w
Overlay(v, w, lo, hi, S, bs) ==
  IF S = {} THEN v
  ELSE LET n == MaxOf(Len(v), MinOf(hi, (SetMax(S) + 1) * bs))
       IN [i \in 1..n |-> IF i - 1 >= lo /\ i - 1 < hi /\ (i - 1) \div bs \in S THEN w[i]
                          ELSE IF i <= Len(v) THEN v[i] ELSE 0]
\* the blocks in which the view of the application is not what the backing file has
Differ(v, w, bs) == {b \in Blocks(0, Len(v), bs) :
                       \E i \in (b * bs + 1) .. MinOf((b + 1) * bs, Len(v)) : i > Len(w) \/ v[i] # w[i]}

-----------------------------------------------------------------------------
(* State *)

FileNode(v) == [k |-> "f", vol |-> v, dur |-> v, cb |-> {}, ub |-> {}, tgt |-> <<>>]
DirNode == [k |-> "d", vol |-> <<>>, dur |-> <<>>, cb |-> {}, ub |-> {}, tgt |-> <<>>]
LinkNode(t) == [k |-> "l", vol |-> <<>>, dur |-> <<>>, cb |-> {}, ub |-> {}, tgt |-> t]

\* cfg: bs cells per block, bpp blocks per page, pages in the cache, ev: eviction is on
\* crash: set of [op, tm, f, t]; f and t are sets of paths (what the patterns match), t = {<<"*">>} if not given
\* clear: sequence of [op, tm, p, q, occ, crash, cnt]
\* step: "all" if the faults around an operation come with it in one instant, as when there is one operation at a time;
\* "before": only those before it; "rest": without these, and what comes after it is put into late; "most": all but what is put there
\* top: torn-op faults [p, parts, bytes, persist, occ, cnt], tsq: torn-seq faults [p, persist, occ, cnt, grp, pend]
StateWith(cfg) == [cfg |-> cfg, names |-> Empty, nodes |-> Empty, fds |-> Empty, alive |-> TRUE, step |-> "all", late |-> <<>>,
                   crash |-> {}, clear |-> <<>>, top |-> <<>>, tsq |-> <<>>]

Ok == [e |-> "ok", v |-> <<>>]
OkV(v) == [e |-> "ok", v |-> v]
Err(e) == [e |-> e, v |-> <<>>]
Begun == [e |-> "begun", v |-> <<>>]
Dead == [e |-> "DEAD", v |-> <<>>]
One(s, r) == {[s |-> s, r |-> r]}

Files(s) == {n \in DOMAIN s.nodes : s.nodes[n].k = "f"}
NewNode(s) == CHOOSE n \in 1 .. Cardinality(DOMAIN s.nodes) + 1 : n \notin DOMAIN s.nodes
TotalCached(s) == SumOver(Files(s), [n \in Files(s) |-> Cardinality(s.nodes[n].cb)])
Restrict(f, S) == [x \in S |-> f[x]]

-----------------------------------------------------------------------------
(* Names.  A path is a sequence of components, the root is <<>>. *)

Parent(p) == SubSeq(p, 1, Len(p) - 1)
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Exists(s, p) == p = <<>> \/ p \in DOMAIN s.names
Kind(s, p) == IF p = <<>> THEN "d" ELSE s.nodes[s.names[p]].k
Children(s, p) == {q \in DOMAIN s.names : Len(q) = Len(p) + 1 /\ IsPrefix(p, q)}
\* names that libfuse gives to a file that is unlinked while it is open
HiddenComps == <<"~h1", "~h2", "~h3", "~h4", "~h5", "~h6", "~h7", "~h8", "~h9">>
IsHidden(p) == p # <<>> /\ p[Len(p)] \in Range(HiddenComps)
Hidden(s, dir) == Append(dir, HiddenComps[CHOOSE i \in DOMAIN HiddenComps : \A p \in DOMAIN s.names : p[Len(p)] # HiddenComps[i]])
\* the error of walking to p's directory, or "ok"
RECURSIVE Walk(_, _)
Walk(s, d) == IF d = <<>> THEN "ok"
              ELSE IF Walk(s, Parent(d)) # "ok" THEN Walk(s, Parent(d))
              ELSE IF d \notin DOMAIN s.names THEN "ENOENT"
              ELSE IF Kind(s, d) # "d" THEN "ENOTDIR" ELSE "ok"
\* nodes without a name are gone, with their cached data
Collect(s) == [s EXCEPT !.nodes = Restrict(s.nodes, {n \in DOMAIN s.nodes : \E p \in DOMAIN s.names : s.names[p] = n})]
AddName(s, p, n) == [s EXCEPT !.names = (p :> n) @@ s.names]
DropName(s, p) == Collect([s EXCEPT !.names = Restrict(s.names, DOMAIN s.names \ {p})])
NLinks(s, p) == Cardinality({q \in DOMAIN s.names : s.names[q] = s.names[p]})
OpenAt(s, p) == {h \in DOMAIN s.fds : s.fds[h].p = p}

\* p and all below it are now called q...
Moved(p, q, x) == IF IsPrefix(p, x) THEN q \o SubSeq(x, Len(p) + 1, Len(x)) ELSE x
Move(s, p, q) ==
  LET keep == {x \in DOMAIN s.names : IsPrefix(p, x) \/ x # q}
      dom  == {Moved(p, q, x) : x \in keep}
      Was(y) == IF IsPrefix(q, y) /\ p \o SubSeq(y, Len(q) + 1, Len(y)) \in keep
                THEN p \o SubSeq(y, Len(q) + 1, Len(y)) ELSE y
  IN Collect([s EXCEPT !.names = [y \in dom |-> s.names[Was(y)]],
                       !.fds = [h \in DOMAIN s.fds |-> [s.fds[h] EXCEPT !.p = Moved(p, q, @)]]])
\* a name goes; if the file is open through it, it gets a hidden one
Unname(s, p) ==
  IF OpenAt(s, p) = {} THEN DropName(s, p)
  ELSE Move(s, p, Hidden(s, Parent(p)))

-----------------------------------------------------------------------------
(* Losing and persisting *)

Lost(x) == [x EXCEPT !.vol = x.dur, !.cb = {}, !.ub = {}]
Persisted(x) == [x EXCEPT !.dur = x.vol, !.ub = {}]
ClearCache(s) == [s EXCEPT !.nodes = [n \in DOMAIN s.nodes |-> Lost(s.nodes[n])]]
\* the process is gone: all that is left is the backing directory
Die(s) == [ClearCache(s) EXCEPT !.alive = FALSE, !.step = "all", !.late = <<>>, !.fds = Empty, !.crash = {}, !.clear = <<>>, !.top = <<>>, !.tsq = <<>>]
NoFault == [op |-> "end", p |-> <<>>, q |-> <<>>]
Strike(s) == IF s.step = "all" THEN Die(s) ELSE [s EXCEPT !.late = Append(@, NoFault)]
Going(s) == s.alive /\ \A i \in DOMAIN s.late : s.late[i].op # "end"

-----------------------------------------------------------------------------
(* Faults around an operation fop on paths p (and q) *)

TwoPaths == {"rename", "link", "symlink"}
FaultOps == {"unlink", "truncate", "fsync", "write", "create", "access", "open", "read"} \union TwoPaths
AnyPath == {<<"*">>}
Matches(f, fop, tm, p, q) ==
  /\ f.op = fop /\ f.tm = tm
  /\ (f.f = AnyPath \/ p \in f.f)
  /\ (fop \in TwoPaths => (f.t = AnyPath \/ q \in f.t))
ClearMatches(c, fop, p, q) == c.op = fop /\ c.p = p /\ (fop \in TwoPaths => c.q = q)

RECURSIVE FireClear(_, _, _, _, _, _)
FireClear(s, i, fop, tm, p, q) ==
  IF ~s.alive \/ i > Len(s.clear) THEN s
  ELSE LET c == s.clear[i] IN
       IF ~ClearMatches(c, fop, p, q) THEN FireClear(s, i + 1, fop, tm, p, q)
       ELSE LET c2 == IF tm = "before" THEN [c EXCEPT !.cnt = @ + 1] ELSE c
                s2 == [s EXCEPT !.clear[i] = c2]
            IN FireClear(IF c2.tm = tm /\ c2.cnt = c2.occ THEN IF c2.crash THEN Die(s2) ELSE ClearCache(s2) ELSE s2,
                         i + 1, fop, tm, p, q)
Fire(s, fop, tm, p, q) ==
  IF \E f \in s.crash : Matches(f, fop, tm, p, q) THEN Die(s) ELSE FireClear(s, 1, fop, tm, p, q)

\* an operation that fails has no "after"
WithFaults(s, fop, p, q, Eff(_)) ==
  LET b == IF s.step = "rest" THEN s ELSE Fire(s, fop, "before", p, q)
  IN IF ~b.alive THEN One(b, Dead)
     ELSE IF s.step = "before" THEN One(b, Begun)
     ELSE {IF x.r.e # "ok" \/ ~Going(x.s) THEN x
           ELSE IF s.step # "all" THEN [x EXCEPT !.s.late = Append(@, [op |-> fop, p |-> p, q |-> q])]
           ELSE LET a == Fire(x.s, fop, "after", p, q) IN [s |-> a, r |-> IF a.alive THEN x.r ELSE Dead] : x \in Eff(b)}

\* ---- torn writes: what a write of d at off to path p persists early, and whether it kills

\* part i of n cells in k parts: [from, to), the last one takes the remainder
PartOf(n, k, i) == [lo |-> (i - 1) * (n \div k), hi |-> IF i = k THEN n ELSE i * (n \div k)]
RECURSIVE SumTo(_, _)
SumTo(b, i) == IF i = 0 THEN 0 ELSE b[i] + SumTo(b, i - 1)
BytesPart(b, i) == [lo |-> SumTo(b, i - 1), hi |-> SumTo(b, i)]
PersistRange(v, off, d, r) == IF r.lo < r.hi THEN Splice(v, off + r.lo, SubSeq(d, r.lo + 1, r.hi)) ELSE v
RECURSIVE PersistParts(_, _, _, _, _)
PersistParts(v, off, d, f, todo) ==
  IF todo = {} THEN v
  ELSE LET i == CHOOSE x \in todo : TRUE
           r == IF f.bytes = <<>> THEN PartOf(Len(d), f.parts, i) ELSE BytesPart(f.bytes, i)
       IN PersistParts(PersistRange(v, off, d, r), off, d, f, todo \ {i})

TornOp(s, n, p, off, d) ==
  LET I == {i \in DOMAIN s.top : s.top[i].p = p} IN
  IF ~Going(s) \/ I = {} THEN s
  ELSE LET i == CHOOSE x \in I : TRUE
           f == [s.top[i] EXCEPT !.cnt = @ + 1]
           s2 == [s EXCEPT !.top[i] = f]
       IN IF f.cnt # f.occ \/ (f.bytes # <<>> /\ SumTo(f.bytes, Len(f.bytes)) # Len(d)) THEN s2
          ELSE Strike([s2 EXCEPT !.nodes[n].dur = PersistParts(@, off, d, f, f.persist)])

\* pend: the first write of a group that is to be persisted waits until there is a second one
NoPend == [off |-> -1, d |-> <<>>]
TornSeq(s, n, p, off, d) ==
  LET I == {i \in DOMAIN s.tsq : s.tsq[i].p = p} IN
  IF I = {} THEN s
  ELSE LET i  == CHOOSE x \in I : TRUE
           f0 == s.tsq[i]
           cnt == f0.cnt + 1
           grp == IF cnt = 2 THEN f0.grp + 1 ELSE f0.grp
           hit == grp = f0.occ /\ cnt >= 2
           d1 == IF f0.pend # NoPend /\ hit THEN Splice(s.nodes[n].dur, f0.pend.off, f0.pend.d) ELSE s.nodes[n].dur
           d2 == IF hit /\ cnt \in f0.persist THEN Splice(d1, off, d) ELSE d1
           kill == hit /\ (cnt = SetMax(f0.persist) \/ (f0.pend # NoPend /\ f0.persist = {1}))
           f == [f0 EXCEPT !.cnt = cnt, !.grp = grp,
                           !.pend = IF cnt = 1 /\ 1 \in f0.persist THEN [off |-> off, d |-> d] ELSE NoPend]
           \* a write that was lost meanwhile (clear-cache) is seen again where nothing is cached
           x == s.nodes[n]
           v2 == IF d2 = x.dur THEN x.vol
                 ELSE [j \in DOMAIN x.vol |-> IF (j - 1) \div s.cfg.bs \in x.cb THEN x.vol[j]
                                             ELSE IF j <= Len(d2) THEN d2[j] ELSE 0]
           s2 == [s EXCEPT !.nodes[n].dur = d2, !.nodes[n].vol = v2, !.tsq[i] = f]
       IN IF kill THEN Strike(s2) ELSE s2
SyncedSeq(s, p) ==
  [s EXCEPT !.tsq = [i \in DOMAIN s.tsq |-> IF s.tsq[i].p = p THEN [s.tsq[i] EXCEPT !.cnt = 0, !.pend = NoPend] ELSE s.tsq[i]]]

-----------------------------------------------------------------------------
(* Data *)

\* What the cache may do with the cells lo..hi-1 that node n got (its view is v2).
\*  - with room: it keeps all of them, the backing file does not change;
\*  - full: blocks without a page go to the backing file, which needs all pages to be in use;
\*  - with eviction: anything unsynced, of any file, may go to its place in its backing file.
\* seen: what the backing files were found to hold afterwards (node -> content), or Empty if that is not known.
Pages(s) == s.cfg.pages
Keep(s, n, v2, B) == [s EXCEPT !.nodes[n].vol = v2, !.nodes[n].cb = @ \union B, !.nodes[n].ub = @ \union B]
Spill(s, n, v2, lo, hi, B, S) ==
  [s EXCEPT !.nodes[n].vol = v2, !.nodes[n].dur = Overlay(@, v2, lo, hi, S, s.cfg.bs),
            !.nodes[n].cb = @ \union (B \ S), !.nodes[n].ub = @ \union (B \ S)]

CellOk(d2, d, v, v2, i) ==
  \/ d2[i] = (IF i <= Len(d) THEN d[i] ELSE 0)
  \/ i <= Len(v) /\ d2[i] = v[i]
  \/ i <= Len(v2) /\ d2[i] = v2[i]
\* d2 may be the backing file after an eviction: every cell is old, or the view's before or after the operation
\* (or of a write a torn-seq fault has kept: P)
EvictOk(d2, d, v, v2, P) ==
  LET Kept(i) == \E w \in P : w.off < i /\ i <= w.off + Len(w.d) /\ w.d[i - w.off] = d2[i]
  IN /\ Len(d2) >= Len(d)
     /\ Len(d2) <= SetMax({Len(d), Len(v), Len(v2)} \union {w.off + Len(w.d) : w \in P})
     /\ \A i \in DOMAIN d2 : CellOk(d2, d, v, v2, i) \/ Kept(i)
KeptWrites(s) == {s.tsq[i].pend : i \in {j \in DOMAIN s.tsq : s.tsq[j].pend.off >= 0}}
DirtyBlocks(s) == SumOver(Files(s), [m \in Files(s) |-> Cardinality(Differ(s.nodes[m].vol, s.nodes[m].dur, s.cfg.bs))])

Put(s, n, v2, lo, hi, seen) ==
  LET B == Blocks(lo, hi, s.cfg.bs)
      kept == Keep(s, n, v2, B)
      new == B \ s.nodes[n].cb
      \* no page can be missing
      roomy == TotalCached(kept) <= Pages(s)
  IN IF roomy \/ B = {} THEN {kept}
     ELSE IF ~s.cfg.ev THEN
       {x \in {Spill(s, n, v2, lo, hi, B, S) : S \in SUBSET new} :
          /\ TotalCached(x) <= Pages(s) * s.cfg.bpp
          /\ (x # kept => TotalCached(x) >= Pages(s))}
     ELSE IF seen # Empty THEN
       LET x == [kept EXCEPT !.nodes = [m \in DOMAIN kept.nodes |->
                                          IF m \in DOMAIN seen THEN [kept.nodes[m] EXCEPT !.dur = seen[m]] ELSE kept.nodes[m]]]
       IN IF /\ \A m \in DOMAIN seen : EvictOk(seen[m], s.nodes[m].dur, s.nodes[m].vol, kept.nodes[m].vol, KeptWrites(s))
             /\ DirtyBlocks(x) <= Pages(s) * s.cfg.bpp
          THEN {x} ELSE {}
     ELSE \* whole blocks, as the page cache does it
       LET All == {<<m, b>> : m \in Files(s), b \in 0 .. 12}
           Have == {mb \in All : mb[2] \in kept.nodes[mb[1]].cb}
           Gone(E) == [kept EXCEPT !.nodes = [m \in DOMAIN kept.nodes |->
                         LET S == {mb[2] : mb \in {y \in E : y[1] = m}} IN
                         [kept.nodes[m] EXCEPT !.dur = Overlay(@, kept.nodes[m].vol, 0, Len(kept.nodes[m].vol), S, s.cfg.bs),
                                               !.cb = @ \ S, !.ub = @ \ S]]]
       IN {x \in {Gone(E) : E \in SUBSET Have} : TotalCached(x) <= Pages(s) * s.cfg.bpp /\ TotalCached(x) >= 1}

WriteEff(s, n, off, d, seen) ==
  LET v == s.nodes[n].vol IN
  IF d = <<>> THEN {s} ELSE Put(s, n, Splice(v, off, d), MinOf(off, Len(v)), off + Len(d), seen)
TruncEff(s, n, size, seen) ==
  LET v == s.nodes[n].vol IN
  IF size = Len(v) THEN {s}
  ELSE IF size > Len(v) THEN Put(s, n, Resize(v, size), Len(v), size, seen)
  ELSE {[s EXCEPT !.nodes[n].vol = Resize(v, size), !.nodes[n].cb = {b \in @ : b * s.cfg.bs < size},
                  !.nodes[n].ub = {b \in @ : b * s.cfg.bs < size}]}

-----------------------------------------------------------------------------
(* The operations *)

\* fl: [trunc, append] ; h: the new handle
NewFd(s, h, n, p, fl) == [s EXCEPT !.fds = (h :> [n |-> n, p |-> p, app |-> fl.append]) @@ s.fds]

DoOpen(s, h, p, fl, seen) ==
  LET w == Walk(s, Parent(p)) IN
  IF w # "ok" THEN One(s, Err(w))
  ELSE IF p \notin DOMAIN s.names THEN
    IF ~fl.creat THEN One(s, Err("ENOENT"))
    ELSE WithFaults(s, "create", p, <<>>,
           LAMBDA x : LET n == NewNode(x)
                          y == [x EXCEPT !.nodes = (n :> FileNode(<<>>)) @@ x.nodes]
                      IN One(NewFd(AddName(y, p, n), h, n, p, fl), Ok))
  ELSE IF fl.creat /\ fl.excl THEN One(s, Err("EEXIST"))
  ELSE IF Kind(s, p) = "d" THEN One(s, Err("EISDIR"))
  ELSE WithFaults(s, "open", p, <<>>,
         LAMBDA x : LET n == x.names[p]
                        y == NewFd(x, h, n, p, fl)
                    IN IF ~fl.trunc THEN One(y, Ok)
                       ELSE WithFaults(y, "truncate", p, <<>>, LAMBDA z : {[s |-> t, r |-> Ok] : t \in TruncEff(z, n, 0, seen)}))

DoClose(s, h) ==
  LET p == s.fds[h].p
      t == [s EXCEPT !.fds = Restrict(s.fds, DOMAIN s.fds \ {h})]
  IN One(IF IsHidden(p) /\ OpenAt(t, p) = {} THEN DropName(t, p) ELSE t, Ok)

DoWrite(s, h, off0, d, seen) ==
  LET f == s.fds[h]
      off == IF f.app THEN Len(s.nodes[f.n].vol) ELSE off0
  IN WithFaults(s, "write", f.p, <<>>,
       LAMBDA x : {LET z == TornOp(TornSeq(y, f.n, f.p, off, d), f.n, f.p, off, d)
                   IN [s |-> z, r |-> IF Going(z) THEN OkV(<<Len(d)>>) ELSE Dead] : y \in WriteEff(x, f.n, off, d, seen)})

DoRead(s, h, off, n) ==
  LET f == s.fds[h] IN
  WithFaults(s, "read", f.p, <<>>, LAMBDA x : One(x, OkV(Slice(x.nodes[f.n].vol, off, n))))

DoFtruncate(s, h, size, seen) ==
  LET f == s.fds[h] IN
  WithFaults(s, "truncate", f.p, <<>>, LAMBDA x : {[s |-> t, r |-> Ok] : t \in TruncEff(x, f.n, size, seen)})

DoTruncate(s, p, size, seen) ==
  LET w == Walk(s, Parent(p)) IN
  IF w # "ok" THEN One(s, Err(w))
  ELSE IF p \notin DOMAIN s.names THEN One(s, Err("ENOENT"))
  ELSE WithFaults(s, "truncate", p, <<>>, LAMBDA x : {[s |-> t, r |-> Ok] : t \in TruncEff(x, x.names[p], size, seen)})

DoFsync(s, h) ==
  LET f == s.fds[h] IN
  WithFaults(s, "fsync", f.p, <<>>,
    LAMBDA x : One(SyncedSeq([x EXCEPT !.nodes[f.n] = Persisted(@)], f.p), Ok))

DoUnlink(s, p) ==
  LET w == Walk(s, Parent(p)) IN
  IF w # "ok" THEN One(s, Err(w))
  ELSE IF p \notin DOMAIN s.names THEN One(s, Err("ENOENT"))
  ELSE IF Kind(s, p) = "d" THEN One(s, Err("EISDIR"))
  ELSE IF OpenAt(s, p) # {} THEN One(Unname(s, p), Ok)  \* libfuse makes it a rename
  ELSE WithFaults(s, "unlink", p, <<>>, LAMBDA x : One(Unname(x, p), Ok))

RenameError(s, p, q) ==
  IF IsPrefix(p, q) /\ p # q /\ Kind(s, p) = "d" THEN "EINVAL"
  ELSE IF q \in DOMAIN s.names /\ p # q THEN
    IF Kind(s, p) = "d" /\ Kind(s, q) # "d" THEN "ENOTDIR"
    ELSE IF Kind(s, p) # "d" /\ Kind(s, q) = "d" THEN "EISDIR"
    ELSE IF Kind(s, q) = "d" /\ Children(s, q) # {} THEN "ENOTEMPTY" ELSE "ok"
  ELSE "ok"
DoRename(s, p, q) ==
  LET wp == Walk(s, Parent(p))
      wq == Walk(s, Parent(q))
  IN IF wp # "ok" THEN One(s, Err(wp))
     ELSE IF p \notin DOMAIN s.names THEN One(s, Err("ENOENT"))
     ELSE IF wq # "ok" THEN One(s, Err(wq))
     ELSE IF p = q THEN One(s, Ok)  \* LazyFS is not even asked
     ELSE IF RenameError(s, p, q) \in {"ENOTDIR", "EISDIR"} THEN One(s, Err(RenameError(s, p, q)))
     ELSE WithFaults(s, "rename", p, q,
            LAMBDA x : IF RenameError(x, p, q) # "ok" THEN One(x, Err(RenameError(x, p, q)))
                       ELSE IF q \in DOMAIN x.names /\ x.names[p] = x.names[q]
                       \* two names of one file: nothing happens (but libfuse now takes the open file for q)
                       THEN One([x EXCEPT !.fds = [h \in DOMAIN x.fds |-> [x.fds[h] EXCEPT !.p = IF @ = p THEN q ELSE @]]], Ok)
                       ELSE One(Move(IF q \in DOMAIN x.names THEN Unname(x, q) ELSE x, p, q), Ok))

DoLink(s, p, q) ==
  LET wp == Walk(s, Parent(p))
      wq == Walk(s, Parent(q))
  IN IF wp # "ok" THEN One(s, Err(wp))
     ELSE IF p \notin DOMAIN s.names THEN One(s, Err("ENOENT"))
     ELSE IF wq # "ok" THEN One(s, Err(wq))
     ELSE IF q \in DOMAIN s.names THEN One(s, Err("EEXIST"))
     ELSE WithFaults(s, "link", p, q, LAMBDA x : IF Kind(x, p) = "d" THEN One(x, Err("EPERM")) ELSE One(AddName(x, q, x.names[p]), Ok))

\* target: a sequence that stands for the text of the link
DoSymlink(s, target, q) ==
  LET w == Walk(s, Parent(q)) IN
  IF w # "ok" THEN One(s, Err(w))
  ELSE WithFaults(s, "symlink", target, q,
         LAMBDA x : IF Exists(x, q) THEN One(x, Err("EEXIST"))
                    ELSE LET n == NewNode(x) IN One(AddName([x EXCEPT !.nodes = (n :> LinkNode(target)) @@ x.nodes], q, n), Ok))

DoMkdir(s, p) ==
  LET w == Walk(s, Parent(p)) IN
  IF w # "ok" THEN One(s, Err(w))
  ELSE IF Exists(s, p) THEN One(s, Err("EEXIST"))
  ELSE LET n == NewNode(s) IN One(AddName([s EXCEPT !.nodes = (n :> DirNode) @@ s.nodes], p, n), Ok)

DoRmdir(s, p) ==
  LET w == Walk(s, Parent(p)) IN
  IF w # "ok" THEN One(s, Err(w))
  ELSE IF p \notin DOMAIN s.names THEN One(s, Err("ENOENT"))
  ELSE IF Kind(s, p) # "d" THEN One(s, Err("ENOTDIR"))
  ELSE IF Children(s, p) # {} THEN One(s, Err("ENOTEMPTY"))
  ELSE One(DropName(s, p), Ok)

DoAccess(s, p) ==
  LET w == Walk(s, Parent(p)) IN
  IF w # "ok" THEN One(s, Err(w))
  ELSE IF ~Exists(s, p) THEN One(s, Err("ENOENT"))
  ELSE WithFaults(s, "access", p, <<>>, LAMBDA x : One(x, Ok))

DoReadlink(s, p) ==
  LET w == Walk(s, Parent(p)) IN
  IF w # "ok" THEN One(s, Err(w))
  ELSE IF p \notin DOMAIN s.names THEN One(s, Err("ENOENT"))
  ELSE IF Kind(s, p) # "l" THEN One(s, Err("EINVAL")) ELSE One(s, OkV(s.nodes[s.names[p]].tgt))

\* kind, size, links
StatOf(s, p) == LET x == s.nodes[s.names[p]] IN
                [k |-> x.k, size |-> IF x.k = "f" THEN Len(x.vol) ELSE -1, nl |-> IF x.k = "d" THEN -1 ELSE NLinks(s, p)]
DoStat(s, p) ==
  LET w == Walk(s, Parent(p)) IN
  IF w # "ok" THEN One(s, Err(w))
  ELSE IF p \notin DOMAIN s.names THEN One(s, Err("ENOENT")) ELSE One(s, OkV(StatOf(s, p)))

\* ---- commands
DoClear(s) == One(ClearCache(s), Ok)
DoCheckpoint(s) == One([s EXCEPT !.nodes = [n \in DOMAIN s.nodes |-> Persisted(s.nodes[n])]], Ok)
\* a command that arms a crash
DoCrash(s, f) == One([s EXCEPT !.crash = @ \union {f}], Ok)
DoTornOp(s, f) == One(IF \E i \in DOMAIN s.top : s.top[i].p = f.p THEN s ELSE [s EXCEPT !.top = Append(@, f)], Ok)
DoTornSeq(s, f) == One(IF \E i \in DOMAIN s.tsq : s.tsq[i].p = f.p THEN s ELSE [s EXCEPT !.tsq = Append(@, f)], Ok)
DoNothing(s) == One(s, Ok)
DoKill(s) == One(Die(s), Dead)
\* a new process on the same backing directory; clear, top, tsq: the faults in its configuration
DoStart(s, cfg, clear, top, tsq) ==
  One([Die(s) EXCEPT !.alive = TRUE, !.cfg = cfg, !.clear = clear, !.top = top, !.tsq = tsq], Ok)

\* pages in use: exact with one block per page; with eviction cb only says what may still be there
UsageOk(s, used) ==
  LET Pgs(c) == SumOver(Files(s), [n \in Files(s) |-> CeilDiv(c[n], s.cfg.bpp)])
      cached == [n \in Files(s) |-> Cardinality(s.nodes[n].cb)]
      dirty == [n \in Files(s) |-> Cardinality(Differ(s.nodes[n].vol, s.nodes[n].dur, s.cfg.bs))]
  IN /\ used >= Pgs(IF s.cfg.ev THEN dirty ELSE cached)
     /\ used <= MinOf(SumOver(Files(s), cached), Pages(s))

\* the report: for each file with unsynced blocks its names, the blocks and the number of cells
Unsynced(s) == {n \in Files(s) : s.nodes[n].ub # {}}
NamesOf(s, n) == {p \in DOMAIN s.names : s.names[p] = n}
CellsOf(s, n, B) == SumOver(B, [b \in B |-> MinOf(s.cfg.bs, Len(s.nodes[n].vol) - b * s.cfg.bs)])
ReportOf(s) == {[names |-> NamesOf(s, n), blocks |-> s.nodes[n].ub] : n \in Unsynced(s)}
ReportTotal(s) == SumOver(Unsynced(s), [n \in Unsynced(s) |-> CellsOf(s, n, s.nodes[n].ub)])

-----------------------------------------------------------------------------
(* One operation as a record, for generation and for traces.  seen: see Put. *)

Apply(s, o, seen) ==
  CASE o.op = "open"      -> DoOpen(s, o.h, o.p, o.fl, seen)
    [] o.op = "close"     -> DoClose(s, o.h)
    [] o.op = "write"     -> DoWrite(s, o.h, o.off, o.d, seen)
    [] o.op = "read"      -> DoRead(s, o.h, o.off, o.n)
    [] o.op = "ftruncate" -> DoFtruncate(s, o.h, o.n, seen)
    [] o.op = "truncate"  -> DoTruncate(s, o.p, o.n, seen)
    [] o.op = "fsync"     -> DoFsync(s, o.h)
    [] o.op = "unlink"    -> DoUnlink(s, o.p)
    [] o.op = "rename"    -> DoRename(s, o.p, o.q)
    [] o.op = "link"      -> DoLink(s, o.p, o.q)
    [] o.op = "symlink"   -> DoSymlink(s, o.t, o.q)
    [] o.op = "mkdir"     -> DoMkdir(s, o.p)
    [] o.op = "rmdir"     -> DoRmdir(s, o.p)
    [] o.op = "access"    -> DoAccess(s, o.p)
    [] o.op = "readlink"  -> DoReadlink(s, o.p)
    [] o.op = "stat"      -> DoStat(s, o.p)
    [] o.op = "clear"     -> DoClear(s)
    [] o.op = "checkpoint" -> DoCheckpoint(s)
    [] o.op = "crash"     -> DoCrash(s, o.f)
    [] o.op = "tornop"    -> DoTornOp(s, o.f)
    [] o.op = "tornseq"   -> DoTornSeq(s, o.f)
    [] o.op = "nothing"   -> DoNothing(s)
    [] o.op = "kill"      -> DoKill(s)
    [] o.op = "start"     -> DoStart(s, o.cfg, o.clear, o.top, o.tsq)

-----------------------------------------------------------------------------
(* What must hold in every state *)

TypeOk(s) ==
  /\ \A p \in DOMAIN s.names : s.names[p] \in DOMAIN s.nodes
  /\ \A n \in DOMAIN s.nodes : \E p \in DOMAIN s.names : s.names[p] = n
  /\ \A p \in DOMAIN s.names : (Len(p) > 1 => Parent(p) \in DOMAIN s.names /\ Kind(s, Parent(p)) = "d")
  /\ \A n \in DOMAIN s.nodes : s.nodes[n].ub \subseteq s.nodes[n].cb
  /\ \A h \in DOMAIN s.fds : s.fds[h].p \in DOMAIN s.names /\ s.names[s.fds[h].p] = s.fds[h].n
\* what is not in the cache is in the backing file
NothingForgotten(s) ==
  \A n \in Files(s) : LET x == s.nodes[n] IN Differ(x.vol, x.dur, s.cfg.bs) \subseteq x.cb
\* what was never synced is what differs (a torn-seq fault may put an old write over what was synced since)
OnlyUnsyncedDiffers(s) == s.tsq = <<>> => \A n \in Files(s) : LET x == s.nodes[n] IN Differ(x.vol, x.dur, s.cfg.bs) \subseteq x.ub
CacheBounded(s) == ~s.cfg.ev => TotalCached(s) <= s.cfg.pages * s.cfg.bpp
DeadIsClean(s) == ~s.alive => \A n \in Files(s) : s.nodes[n].vol = s.nodes[n].dur /\ s.nodes[n].cb = {}
Contract(s) == TypeOk(s) /\ NothingForgotten(s) /\ CacheBounded(s) /\ DeadIsClean(s)
=============================================================================

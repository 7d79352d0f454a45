------------------------------ MODULE MCLazyFS ------------------------------
(***************************************************************************)
(* Bounded state graphs of LazyFS: checked against the invariants and the   *)
(* action properties below, and printed transition by transition (Emit), so *)
(* that the driver can take the real LazyFS along every one of them.        *)
(***************************************************************************)
EXTENDS LazyFS, Json

CONSTANTS Scope,    \* which operations: "data", "data2", "names", "crash", "clear", "tornop", "tornseq"
          BS, BPP, PAGES, EV, MaxLen, MaxOps
VARIABLES st, last, steps

Cfg == [bs |-> BS, bpp |-> BPP, pages |-> PAGES, ev |-> EV]
NoFl == [creat |-> FALSE, excl |-> FALSE, trunc |-> FALSE, append |-> FALSE]
CreatFl == [NoFl EXCEPT !.creat = TRUE]
A == <<"a">>
B == <<"b">>
D == <<"d">>
DA == <<"d", "a">>
DB == <<"d", "b">>

Do(o) == \E x \in Apply(st, o, Empty) : st' = x.s /\ last' = [o |-> o, r |-> x.r] /\ steps' = steps + 1
Up == st.alive
H == DOMAIN st.fds

-----------------------------------------------------------------------------
Datas == IF Scope = "data2" THEN {<<1>>, <<2, 1>>} ELSE {<<1>>, <<1, 1>>, <<1, 1, 1>>}
Write     == Up /\ \E h \in H, off \in 0 .. MaxLen, d \in Datas :
               off + Len(d) <= MaxLen /\ Do([op |-> "write", h |-> h, off |-> off, d |-> d])
Ftruncate == Up /\ \E h \in H, n \in 0 .. MaxLen : Do([op |-> "ftruncate", h |-> h, n |-> n])
Fsync     == Up /\ \E h \in H : Do([op |-> "fsync", h |-> h])
Clear     == Up /\ Do([op |-> "clear"])
Checkpoint == Up /\ Do([op |-> "checkpoint"])
Read      == Up /\ \E h \in H, off \in 0 .. MaxLen, n \in 1 .. MaxLen : Do([op |-> "read", h |-> h, off |-> off, n |-> n])
OpenTrunc == Up /\ \E p \in DOMAIN st.names :
               9 \notin H /\ Kind(st, p) = "f" /\ Do([op |-> "open", h |-> 9, p |-> p, fl |-> [NoFl EXCEPT !.trunc = TRUE]])
Close9    == Up /\ 9 \in H /\ Do([op |-> "close", h |-> 9])
Kill      == Up /\ Do([op |-> "kill"])
Restart   == ~Up /\ Do([op |-> "start", cfg |-> Cfg, clear |-> <<>>, top |-> <<>>, tsq |-> <<>>])

DataNext == Write \/ Ftruncate \/ Fsync \/ Clear \/ (Scope = "data2" /\ Checkpoint)

-----------------------------------------------------------------------------
(* Names.  Content is reduced to a tag: what was synced and what was not. *)
Paths == {A, B, D, DA, DB}
FilePaths == {A, B, DA, DB}
NOpen   == Up /\ \E p \in FilePaths, h \in {1, 2} : h \notin H
             /\ (p \in DOMAIN st.names => Kind(st, p) # "l")  \* the kernel would follow the link
             /\ Do([op |-> "open", h |-> h, p |-> p, fl |-> CreatFl])
NClose  == Up /\ \E h \in H : Do([op |-> "close", h |-> h])
NWrite  == Up /\ \E h \in H : st.nodes[st.fds[h].n].vol \in {<<>>, <<1>>} /\
             Do([op |-> "write", h |-> h, off |-> Len(st.nodes[st.fds[h].n].vol), d |-> <<h>>])
NUnlink == Up /\ \E p \in Paths : Do([op |-> "unlink", p |-> p])
NRename == Up /\ \E p, q \in Paths :
             \* libfuse first hides an open target: not a no-op for two names of one file
             /\ ~(p \in DOMAIN st.names /\ q \in DOMAIN st.names /\ st.names[p] = st.names[q] /\ OpenAt(st, q) # {})
             /\ ~(p \in DOMAIN st.names /\ Kind(st, p) = "l" /\ q = D)  \* no paths through links
             /\ Do([op |-> "rename", p |-> p, q |-> q])
NLink   == Up /\ \E p, q \in FilePaths : Do([op |-> "link", p |-> p, q |-> q])
NMkdir  == Up /\ Do([op |-> "mkdir", p |-> D])
NRmdir  == Up /\ Do([op |-> "rmdir", p |-> D])
NSymlink == Up /\ \E q \in {B, DB} : Do([op |-> "symlink", t |-> <<"@", "a">>, q |-> q])
NStat   == Up /\ \E p \in Paths : Do([op |-> "stat", p |-> p])
NReadlink == Up /\ \E p \in Paths : Do([op |-> "readlink", p |-> p])
NamesNext == NReadlink \/ NOpen \/ NClose \/ NWrite \/ NUnlink \/ NRename \/ NLink \/ NMkdir \/ NRmdir \/ NSymlink
             \/ NStat \/ Fsync \/ Clear

-----------------------------------------------------------------------------
(* Faults: one of each kind of operation, on a path that matches and on one that does not *)
FWrite  == Up /\ \E h \in H : Len(st.nodes[st.fds[h].n].vol) <= 1
             /\ Do([op |-> "write", h |-> h, off |-> Len(st.nodes[st.fds[h].n].vol), d |-> <<1>>])
FOpen   == Up /\ \E p \in {A, B} : 9 \notin H /\ (p \in DOMAIN st.names => Kind(st, p) # "l") /\ Do([op |-> "open", h |-> 9, p |-> p, fl |-> CreatFl])
FTrunc  == Up /\ \E p \in {A, B} : (p \in DOMAIN st.names => Kind(st, p) # "l") /\ Do([op |-> "truncate", p |-> p, n |-> 1])
FRead   == Up /\ \E h \in H : Do([op |-> "read", h |-> h, off |-> 0, n |-> 2])
FFsync  == Up /\ \E h \in H \ {9} : Do([op |-> "fsync", h |-> h])
\* files that are open would be hidden instead
FUnlink == Up /\ \E p \in {B, DA} : OpenAt(st, p) = {} /\ Do([op |-> "unlink", p |-> p])
FRename == Up /\ \E p, q \in {A, B, DA} : (p # q) /\ OpenAt(st, q) = {} /\ Do([op |-> "rename", p |-> p, q |-> q])
FLink   == Up /\ \E p, q \in {A, B, DA} : p # q /\ Do([op |-> "link", p |-> p, q |-> q])
FSymlink == Up /\ \E q \in {B, DA} : Do([op |-> "symlink", t |-> <<"@", "a">>, q |-> q])
FAccess == Up /\ \E p \in {A, B} : (p \in DOMAIN st.names => Kind(st, p) # "l") /\ Do([op |-> "access", p |-> p])
FAny == FWrite \/ FOpen \/ FTrunc \/ FRead \/ FFsync \/ FUnlink \/ FRename \/ FLink \/ FSymlink \/ FAccess

Pats(fop) == IF fop \in TwoPaths
             THEN {[f |-> {x}, t |-> {y}] : x \in {A, <<"@", "a">>}, y \in {B, DA}}
                  \union {[f |-> AnyPath, t |-> {B}], [f |-> {A}, t |-> AnyPath]}
             ELSE {[f |-> {A}, t |-> AnyPath], [f |-> {A, DA}, t |-> AnyPath]}
Armed == {[op |-> fop, tm |-> tm, f |-> x.f, t |-> x.t] :
             fop \in FaultOps, tm \in {"before", "after"}, x \in UNION {Pats(o) : o \in FaultOps}}
Sensible(f) == [f |-> f.f, t |-> f.t] \in Pats(f.op) /\ (f.op # "symlink" => f.f # {<<"@", "a">>})
Arm     == Up /\ st.crash = {} /\ \E f \in Armed : Sensible(f) /\ Do([op |-> "crash", f |-> f])
CrashNext == Arm \/ FAny \/ Restart

ClearFaults == {[op |-> fop, tm |-> tm, p |-> p, q |-> q, occ |-> occ, crash |-> c, cnt |-> 0] :
                  fop \in FaultOps, tm \in {"before", "after"}, p \in {A, <<"@", "a">>}, q \in {<<>>, B}, occ \in {1, 2}, c \in BOOLEAN}
GoodClear(c) == /\ (c.op \in TwoPaths) = (c.q # <<>>)
                /\ (c.op = "symlink") = (c.p # A)
ClearNext == FAny \/ Restart

-----------------------------------------------------------------------------
TornOps == {[p |-> A, parts |-> k, bytes |-> <<>>, persist |-> S, occ |-> o, cnt |-> 0] :
              k \in 1 .. 3, S \in (SUBSET (1 .. 3)) \ {{}}, o \in {1, 2}}
           \union {[p |-> A, parts |-> 0, bytes |-> b, persist |-> S, occ |-> o, cnt |-> 0] :
              b \in {<<1, 2>>, <<2, 1, 2>>}, S \in (SUBSET (1 .. 3)) \ {{}}, o \in {1, 2}}
GoodTorn(f) == SetMax(f.persist) <= (IF f.bytes = <<>> THEN f.parts ELSE Len(f.bytes))
TornSeqs == {[p |-> A, persist |-> S, occ |-> o, cnt |-> 0, grp |-> 0, pend |-> NoPend] : S \in (SUBSET (1 .. 3)) \ {{}}, o \in {1, 2}}
TWrite == Up /\ \E h \in H, off \in {0, 2}, n \in {1, 3, 5} :
            /\ Do([op |-> "write", h |-> h, off |-> off, d |-> [i \in 1 .. n |-> steps + 1]])
TSWrite == Up /\ \E h \in H, off \in {0, 1} : Do([op |-> "write", h |-> h, off |-> off, d |-> <<steps + 1, steps + 1>>])
TornNext == TWrite \/ (Up /\ Do([op |-> "fsync", h |-> 1]))
TornSeqNext == TSWrite \/ (Up /\ Do([op |-> "fsync", h |-> 1])) \/ (Up /\ Do([op |-> "ftruncate", h |-> 1, n |-> 1]))

-----------------------------------------------------------------------------
S0 == StateWith(Cfg)
\* a and d/a, with the directory d: [content of a synced, handles 1 on a, 2 on d/a]
WithFiles == LET x == [S0 EXCEPT !.nodes = (1 :> FileNode(<<>>)) @@ (2 :> FileNode(<<2>>)) @@ (3 :> DirNode),
                                  !.names = (A :> 1) @@ (DA :> 2) @@ (D :> 3)]
             IN NewFd(NewFd(x, 1, 1, A, NoFl), 2, 2, DA, NoFl)
OneFile == NewFd([S0 EXCEPT !.nodes = (1 :> FileNode(<<>>)), !.names = (A :> 1)], 1, 1, A, NoFl)
TwoFiles == NewFd([OneFile EXCEPT !.nodes = (2 :> FileNode(<<>>)) @@ @, !.names = (B :> 2) @@ @], 2, 2, B, NoFl)
Initial == CASE Scope = "data" -> {OneFile}
             [] Scope = "data2" -> {TwoFiles}
             [] Scope = "names" -> {S0}
             [] Scope = "crash" -> {WithFiles}
             [] Scope = "clear" -> {[WithFiles EXCEPT !.clear = <<c>>, !.fds = IF c.op = "open" THEN Empty ELSE @] : c \in {x \in ClearFaults : GoodClear(x)}}
             [] Scope = "tornop" -> {[TwoFiles EXCEPT !.top = <<f>>] : f \in {x \in TornOps : GoodTorn(x)}}
             [] Scope = "tornseq" -> {[TwoFiles EXCEPT !.tsq = <<f>>] : f \in TornSeqs}

View(s) == [names |-> {[p |-> p, n |-> s.names[p]] : p \in DOMAIN s.names},
            nodes |-> {[n |-> n, x |-> s.nodes[n]] : n \in DOMAIN s.nodes},
            fds |-> {[h |-> h, f |-> s.fds[h]] : h \in DOMAIN s.fds},
            alive |-> s.alive, crash |-> s.crash, clear |-> s.clear, top |-> s.top, tsq |-> s.tsq]

Init == /\ st \in Initial /\ last = [o |-> [op |-> "init"], r |-> Ok] /\ steps = 0
        /\ PrintT("I " \o ToJson(View(st)))
Next == CASE Scope \in {"data", "data2"} -> DataNext
          [] Scope = "names" -> NamesNext
          [] Scope = "crash" -> CrashNext
          [] Scope = "clear" -> ClearNext
          [] Scope = "tornop" -> TornNext
          [] Scope = "tornseq" -> TornSeqNext
Spec == Init /\ [][Next]_<<st, last, steps>>

\* in the torn scopes the data says which write it came from
MCView == IF Scope \in {"tornop", "tornseq"} THEN <<st, steps>> ELSE <<st>>
Bound == steps < MaxOps
Emit == PrintT("T " \o ToJson([s |-> View(st), o |-> last'.o, r |-> last'.r, t |-> View(st')]))

-----------------------------------------------------------------------------
(* Properties *)
Inv == Contract(st)
\* C01, C02, C12, C13: the backing copy of a file changes in no other way
Op == last'.o.op
Same(n) == n \in DOMAIN st.nodes /\ n \in DOMAIN st'.nodes
Identity == Op \in {"write", "ftruncate", "truncate", "fsync", "clear", "checkpoint", "kill", "crash", "read", "start", "access", "stat"}
DurStable == Identity => \A n \in Files(st) : Same(n) =>
     \/ st'.nodes[n].dur = st.nodes[n].dur
     \/ Op \in {"fsync", "checkpoint"} /\ st'.nodes[n].dur = st.nodes[n].vol
     \/ Op \in {"write", "ftruncate", "truncate"} /\ ~EV /\ TotalCached(st') >= PAGES
     \/ Op \in {"write", "ftruncate", "truncate"} /\ EV /\ EvictOk(st'.nodes[n].dur, st.nodes[n].dur, st.nodes[n].vol, st'.nodes[n].vol, KeptWrites(st))
     \/ Op = "write" /\ (st.top # <<>> \/ st.tsq # <<>>)
\* C01: after fsync the synced content is what any clear or crash leaves
SyncSticks == Op = "fsync" /\ last'.r.e = "ok" => \A n \in Files(st') : st'.fds[last'.o.h].n = n => ClearCache(st').nodes[n].vol = st'.nodes[n].vol
\* C02: losing the cache leaves what was persisted
LossExact == (Op = "clear" \/ ~st'.alive) /\ st.top = <<>> /\ st.tsq = <<>> =>
     \A n \in Files(st') : st'.nodes[n].vol = st'.nodes[n].dur
\* C10: before leaves nothing of the operation, after all of it
FaultExact == (st.alive /\ ~st'.alive /\ Op # "kill" /\ st.clear = <<>> /\ st.top = <<>> /\ st.tsq = <<>>) =>
     \/ st' = Die(st)
     \/ \E x \in Apply([st EXCEPT !.crash = {}], last'.o, Empty) : x.r.e = "ok" /\ st' = Die(x.s)
Props == [][DurStable /\ SyncSticks /\ LossExact /\ FaultExact]_<<st, last, steps>>
=============================================================================

------------------------------ MODULE Commands ------------------------------
(***************************************************************************)
(* C15: the commands of the fault FIFO.  A command is what the operator      *)
(* wrote, attribute by attribute ("no": not given); it is accepted or not    *)
(* (Accepts), and those that are not do nothing.                            *)
(***************************************************************************)
EXTENDS Failing

FaultKinds == {"crash", "tornop", "tornseq"}
PlainKinds == {"clear", "checkpoint", "usage", "report", "help", "junk"}

Pos(x) == x >= 1
\* extra: an attribute that does not belong there;  fr, to: "no", "bad" (no pattern at all, or too long) or "ok"
AcceptsCrash(c) ==
  /\ ~c.extra /\ c.tm \in {"before", "after"} /\ c.op \in FaultOps
  /\ c.fr \in {"no", "ok"} /\ c.to \in {"no", "ok"}
  /\ IF c.op \in TwoPaths THEN c.fr = "ok" \/ c.to = "ok" ELSE c.fr = "ok" /\ c.to = "no"
\* lists of numbers; bad: not one.  parts = 0: not given, bytes = <<>>: not given
AcceptsTornOp(c) ==
  /\ ~c.extra /\ ~c.bad /\ c.p # <<>> /\ c.persist # <<>> /\ Pos(c.occ)
  /\ (c.parts = -1) # (c.bytes = <<>>)
  /\ (c.parts # -1 => Pos(c.parts))
  /\ \A i \in DOMAIN c.bytes : Pos(c.bytes[i])
  /\ \A i \in DOMAIN c.persist : Pos(c.persist[i]) /\ c.persist[i] <= (IF c.parts # -1 THEN c.parts ELSE Len(c.bytes))
AcceptsTornSeq(c) ==
  /\ ~c.extra /\ ~c.bad /\ c.p # <<>> /\ c.op = "write" /\ c.persist # <<>> /\ Pos(c.occ)
  /\ \A i \in DOMAIN c.persist : Pos(c.persist[i])
Accepts(c) == CASE c.k = "crash" -> AcceptsCrash(c)
                [] c.k = "tornop" -> AcceptsTornOp(c)
                [] c.k = "tornseq" -> AcceptsTornSeq(c)
                [] OTHER -> c.k # "junk"

Set(x) == {x[i] : i \in DOMAIN x}
FaultOf(c) == CASE c.k = "crash" -> [op |-> c.op, tm |-> c.tm, f |-> IF c.fr = "no" THEN AnyPath ELSE Set(c.f), t |-> IF c.to = "no" THEN AnyPath ELSE Set(c.t)]
                [] c.k = "tornop" -> [p |-> c.p, parts |-> IF c.parts = -1 THEN 0 ELSE c.parts, bytes |-> c.bytes, persist |-> Set(c.persist), occ |-> c.occ, cnt |-> 0]
                [] c.k = "tornseq" -> [p |-> c.p, persist |-> Set(c.persist), occ |-> c.occ, cnt |-> 0, grp |-> 0, pend |-> NoPend]

\* the state after a command
Carry(s, c) ==
  IF ~Accepts(c) \/ c.k \in {"usage", "report", "help"} THEN {s}
  ELSE {x.s : x \in CASE c.k = "clear" -> Apply(s, [op |-> "clear"], Empty)
                      [] c.k = "checkpoint" -> Apply(s, [op |-> "checkpoint"], Empty)
                      [] c.k = "crash" -> Apply(s, [op |-> "crash", f |-> FaultOf(c)], Empty)
                      [] c.k = "tornop" -> Apply(s, [op |-> "tornop", f |-> FaultOf(c)], Empty)
                      [] c.k = "tornseq" -> Apply(s, [op |-> "tornseq", f |-> FaultOf(c)], Empty)}

\* a sequence of commands, in order, each once.  outs: what usage and report printed, in order; OutOk says if it is right
CarryAll(s0, cs0, outs0, OutOk(_, _, _)) ==
  LET RECURSIVE Go(_, _, _)
      Go(s, cs, outs) ==
        IF cs = <<>> THEN IF outs = <<>> THEN {s} ELSE {}
        ELSE LET c == Head(cs) IN
             IF c.k \in {"usage", "report"} THEN IF outs # <<>> /\ OutOk(s, c, Head(outs)) THEN Go(s, Tail(cs), Tail(outs)) ELSE {}
             ELSE UNION {Go(x, Tail(cs), outs) : x \in Carry(s, c)}
  IN Go(s0, cs0, outs0)
Acks(cs) == Cardinality({i \in DOMAIN cs : cs[i].k = "clear"})
=============================================================================

------------------------------- MODULE T_Eval -------------------------------
(* Conformance of recorded uses of paths, expressions and templates with OgdlEval (C10-C13, C21). *)
EXTENDS OgdlOps, TraceBatch

\* An operation that is not specified, but changes nothing for sure
Harmless(op) == /\ op.o \in {"get", "get2", "evalp", "eval"}
                /\ ~Contains(op.s, 61) /\ ~Contains(op.p, 61)
\* [h, at, n]: the state so far, the first step that differs, and the number of steps judged
Run(c, r) ==
  LET start == Plant(HeapInit(0), Str_(<<95>>), c.root) IN
  FoldLeft(LAMBDA a, i :
             IF a.at # 0 \/ a.u # "" THEN a
             ELSE LET d == Spec_(a.h @@ [calls |-> <<>>], start.id, c.ops[i]) IN
                  IF d.u # "" THEN IF Harmless(c.ops[i]) /\ d.u # "big index" THEN a ELSE [a EXCEPT !.u = d.u]
                  ELSE IF r.steps = <<>> THEN [a EXCEPT !.h = [n |-> d.h.n, r |-> d.h.r]]
                  ELSE IF i > Len(r.steps) THEN [a EXCEPT !.at = i]
                  ELSE IF Field(r.steps[i].d, "big") THEN [a EXCEPT !.u = "big tree"]
                  ELSE [h |-> [n |-> d.h.n, r |-> d.h.r], at |-> IF Agrees(a.h, start.id, d, r.steps[i]) THEN 0 ELSE i, u |-> "", n |-> i],
           [h |-> start.h, at |-> 0, u |-> "", n |-> 0], [i \in DOMAIN c.ops |-> i])

\* (setting at a big index takes memory in proportion to it)
Conforms(c, r) == IF Failed(r) THEN Run(c, [steps |-> <<>>]).u = "big index" ELSE Run(c, r).at = 0
Why(c, r) == IF Failed(r) THEN "failed"
             ELSE LET b == Run(c, r)
                      start == Plant(HeapInit(0), Str_(<<95>>), c.root)
                      before == Run([c EXCEPT !.ops = SubSeq(c.ops, 1, b.at - 1)], r)
                      d == Spec_(before.h @@ [calls |-> <<>>], start.id, c.ops[b.at]) IN
                  [at |-> b.at, op |-> c.ops[b.at], v |-> d.v, text |-> d.o, calls |-> [i \in DOMAIN d.h.calls |-> NormCall(d.h.calls[i])], heap |-> NormHeap(Canon([n |-> d.h.n, r |-> <<start.id, d.v.id>>])), observed |-> r.steps[b.at]]
Stat(c, r) == IF "STAT" \in DOMAIN IOEnv THEN LET b == Run(c, r) IN PrintT("STAT " \o ToString(b.n) \o " " \o ToString(Len(c.ops)) \o " " \o b.u) ELSE TRUE
Check == j <= Len(Trace) => \/ Conforms(Trace[j].c, Trace[j].r) /\ Stat(Trace[j].c, Trace[j].r)
                            \/ Reject(Trace[j], Why(Trace[j].c, Trace[j].r))
=============================================================================

------------------------------- MODULE T_Heap -------------------------------
(* Conformance of recorded editing sessions with OgdlHeap (C08, C09). *)
EXTENDS OgdlHeap, TraceBatch

\* [h, at]: the state so far, and the first step that differs
Run(c, r) ==
  FoldLeft(LAMBDA a, i :
             IF a.at # 0 THEN a
             ELSE LET o == c.ops[i]
                      s == r.steps[i] IN
                  IF s.skip = "big" THEN a
                  ELSE IF MakesCycle(a.h, o) \/ s.skip = "cycle" THEN [a EXCEPT !.at = IF MakesCycle(a.h, o) /\ s.skip = "cycle" THEN 0 ELSE i]
                  ELSE LET d == Does(a.h, o) IN
                       [h |-> d.h, at |-> IF d.res = s.res /\ Canon(d.h) = s.d THEN 0 ELSE i],
           [h |-> HeapInit(c.regs), at |-> 0], [i \in DOMAIN c.ops |-> i])

Conforms(c, r) == ~Failed(r) /\ Len(r.steps) = Len(c.ops) /\ Run(c, r).at = 0

Why(c, r) == IF Failed(r) THEN "failed"
             ELSE LET b == Run(c, r) IN [at |-> b.at, op |-> c.ops[b.at], specified |-> Canon(b.h), observed |-> r.steps[b.at]]
Check == j <= Len(Trace) => \/ Conforms(Trace[j].c, Trace[j].r)
                            \/ Reject(Trace[j], Why(Trace[j].c, Trace[j].r))
=============================================================================

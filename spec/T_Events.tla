------------------------------ MODULE T_Events ------------------------------
(* Conformance of recorded sequences of events with OgdlEvents (C23). *)
EXTENDS OgdlEvents, TraceBatch
\* after each operation: the level; after "tree" the tree; at the end, the trees taken before, again
Run(c, r) ==
  FoldLeft(LAMBDA a, i :
             IF a.at # 0 THEN a
             ELSE LET s == EvOp(a.s, c.ops[i])
                      o == r.steps[i] IN
                  [s |-> s, at |-> IF o.l = s.cur /\ (c.ops[i].o = "tree" => o.root = "_" /\ o.d = EvTree(s) /\ o.again = o.d) THEN 0 ELSE i],
           [s |-> EvInit, at |-> 0], [i \in DOMAIN c.ops |-> i])
Conforms(c, r) == ~Failed(r) /\ Len(r.steps) = Len(c.ops) /\ Run(c, r).at = 0
Why(c, r) == IF Failed(r) THEN {"failed"}
             ELSE LET b == Run(c, r) IN {[at |-> b.at, op |-> c.ops[b.at], specified |-> [l |-> b.s.cur, d |-> EvTree(b.s)], observed |-> r.steps[b.at]]}
Check == j <= Len(Trace) => Conforms(Trace[j].c, Trace[j].r) \/ Reject(Trace[j], Why(Trace[j].c, Trace[j].r))
=============================================================================

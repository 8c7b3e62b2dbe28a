------------------------------ MODULE T_BinDec ------------------------------
(* Any bytes as binary input, from every entry point (C05). *)
EXTENDS OgdlBinary, TraceBatch

Conforms(c, r) ==
  IF Failed(r) THEN FALSE
  ELSE LET d == Decode(c.data)
           ok == Complete(d)
           t == DecodedTree(d)
           good(x) == IF ok THEN ~x.nil /\ x.n = t ELSE x.nil
           n == ObjLen(c.data, 0) IN
       /\ \A f \in {"tree", "reader", "bufio", "file"} : good(r[f])
       /\ good(r.log.tree)
       /\ ok => ~r.log.err /\ r.log.next = n
       /\ ok => ~r.logb.err /\ r.logb.next = n /\ r.logb.b = SubSeq(c.data, 1, n)
       \* not a whole object: no object, and an error if the end was reached
       /\ ~ok => r.logb.nil
       /\ ~ok /\ c.data # <<>> /\ d.m # "bad" => r.log.err /\ r.logb.err
Check == j <= Len(Trace) => Conforms(Trace[j].c, Trace[j].r) \/ Reject(Trace[j], [m |-> Decode(Trace[j].c.data).m, t |-> DecodedTree(Decode(Trace[j].c.data))])
=============================================================================

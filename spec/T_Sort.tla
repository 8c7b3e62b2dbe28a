------------------------------- MODULE T_Sort -------------------------------
(* Conformance of recorded sorts with OgdlSort (C16). *)
EXTENDS OgdlSort, TraceBatch

\* the operations before: [h, u]
Prepared(c) ==
  LET s == Plant(HeapInit(0), Str_(<<95>>), c.root) IN
  FoldLeft(LAMBDA a, op :
             IF a.u # "" THEN a
             ELSE LET p == PathOf(op.s)
                      q == PathOf(op.p)
                      r == IF op.o = "setp" THEN WalkFrom(a.h, s.id, q.a.p, "get") ELSE Ret(a.h, V(op.v))
                      z == IF op.o = "setp" THEN SetPath(r.h, s.id, p.a.p, G(r.v.id)) ELSE SetPath(a.h, s.id, p.a.p, V(op.v)) IN
                  [h |-> z.h, u |-> IF ~p.ok \/ (op.o = "setp" /\ ~q.ok) THEN "path" ELSE r.u \o z.u, id |-> s.id],
           [h |-> s.h, u |-> "", id |-> s.id], c.ops)
\* [u, ok]
Judge(c, r) ==
  LET a == Prepared(c)
      at == PathOf(c.at)
      w == IF c.at = <<>> THEN Ret(a.h, G(a.id)) ELSE WalkFrom(a.h, a.id, at.a.p, "get")
      f == PathOf(c.field)
      x == w.v.id
      keys == Keys(w.h, x, f.a.p) IN
  IF a.u # "" \/ ~KnownText(c.field) \/ ~f.ok \/ (c.at # <<>> /\ ~at.ok) \/ w.u # "" \/ w.v.t = "e" \/ ~Known(keys) THEN [u |-> TRUE, ok |-> TRUE]
  ELSE [u |-> FALSE,
        ok |-> \A n \in DOMAIN r.rounds :
                 LET p == r.rounds[n].order IN
                 /\ IsOrder(p, Len(Kids(w.h, x)))
                 /\ Ordered(keys, p, c.kind)
                 /\ NormHeap(Canon([n |-> SortedHeap(w.h, x, p).n, r |-> <<a.id, x>>])) = NormHeap(r.rounds[n].d)]
Conforms(c, r) == ~Failed(r) /\ Judge(c, r).ok
Why(c, r) == IF Failed(r) THEN "failed" ELSE "not sorted, or something else changed"
Stat(c, r) == IF "STAT" \in DOMAIN IOEnv THEN PrintT("STAT 1 1 " \o ToString(Judge(c, r).u)) ELSE TRUE
Check == j <= Len(Trace) => \/ Conforms(Trace[j].c, Trace[j].r) /\ Stat(Trace[j].c, Trace[j].r)
                            \/ Reject(Trace[j], Why(Trace[j].c, Trace[j].r))
=============================================================================

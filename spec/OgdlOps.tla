------------------------------ MODULE OgdlOps ------------------------------
(***************************************************************************)
(* The operations that take a path, an expression or a template as text    *)
(* and a context, and how what they did is compared with what they should. *)
(***************************************************************************)
EXTENDS OgdlEval

\* What an operation does: [h, v, o, u]; u # "" where that is not specified
Res(x, o) == [h |-> x.h, v |-> x.v, o |-> o, u |-> x.u]
Nothing(why) == [h |-> [n |-> <<>>], v |-> NilV, o |-> <<>>, u |-> why]
Spec_(h, c, op) ==
  LET p == PathOf(op.s)
      q == PathOf(op.p)
      e == Expr(op.s)
      t == Template(op.s) IN
  IF ~KnownText(op.s) \/ ~KnownText(op.p) THEN Nothing("text")
  ELSE CASE op.o \in {"get", "evalp"} -> IF p.ok THEN Res(WalkFrom(h, c, p.a.p, IF op.o = "get" THEN "get" ELSE "eval"), <<>>) ELSE Nothing("path")
    [] op.o = "get2" -> IF ~p.ok \/ ~q.ok THEN Nothing("path")
                        ELSE LET r == WalkFrom(h, c, p.a.p, "get") IN
                             IF r.u # "" \/ r.v.id = 0 THEN Res(r, <<>>) ELSE Res(WalkFrom(r.h, r.v.id, q.a.p, "get"), <<>>)
    [] op.o = "set" -> IF p.ok THEN Res(SetPath(h, c, p.a.p, V(op.v)), <<>>) ELSE Nothing("path")
    [] op.o = "setg" -> IF p.ok THEN LET y == Plant(h, Str_(<<95>>), op.n) IN Res(SetPath(y.h, c, p.a.p, G(y.id)), <<>>) ELSE Nothing("path")
    [] op.o = "setp" -> IF ~p.ok \/ ~q.ok THEN Nothing("path")
                        ELSE LET r == WalkFrom(h, c, q.a.p, "get") IN IF r.u # "" THEN Nothing(r.u) ELSE Res(SetPath(r.h, c, p.a.p, G(r.v.id)), <<>>)
    [] op.o = "eval" -> IF e.ok THEN Res(Eval(h, c, e.a, "eval"), <<>>) ELSE Nothing("expression")
    [] op.o = "tmpl" -> IF t.ok THEN LET r == Render(h, c, t.a) IN [h |-> r.h, v |-> NilV, o |-> r.o, u |-> r.u] ELSE Nothing("template")

\* the same calls, with the same arguments (the order in which operands are evaluated is not specified)
NormArg(a) == [v |-> NormC(a.v), n |-> [i \in DOMAIN a.n |-> [l |-> a.n[i].l, v |-> NormC(a.n[i].v)]]]
NormCall(x) == [f |-> x.f, a |-> [i \in DOMAIN x.a |-> NormArg(x.a[i])]]
SameCalls(s, u) == LET s1 == [i \in DOMAIN s |-> NormCall(s[i])]  u1 == [i \in DOMAIN u |-> NormCall(u[i])]
                       count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x}) IN
                   Len(s) = Len(u) /\ \A i \in DOMAIN s1 : count(s1, s1[i]) = count(u1, s1[i])
Dflt == <<100,102,108,116>>
Agrees(h, c, d, s) ==
  /\ s.text = d.o
  /\ SameCalls(d.h.calls, s.calls)
  /\ NormHeap(Canon([n |-> d.h.n, r |-> <<c, d.v.id>>])) = NormHeap(s.d)
  /\ IF d.v.t = "g" THEN s.v.t = "g" /\ s.len = Len(Kids(d.h, d.v.id)) /\ s.str = AsText(d.h, d.v)
     ELSE /\ NormC(s.v) = NormC([t |-> IF d.v.t = "e" THEN "n" ELSE d.v.t, b |-> d.v.b, g |-> d.v.g])
          /\ s.len = -1 /\ s.str = Dflt
=============================================================================

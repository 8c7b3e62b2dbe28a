------------------------------ MODULE MC_Eval ------------------------------
(***************************************************************************)
(* Short sequences of settings over a small tree, by value, by tree and by *)
(* expression, through a pool of paths.                                    *)
(* Checked after each: getting the path gives the value back; nodes off    *)
(* the path are as before; getting changes nothing and, in two steps, is   *)
(* getting in one.  Every sequence is exported, with gets of every path.   *)
(***************************************************************************)
EXTENDS OgdlEval, Json
CONSTANTS MaxSets, Every

A == <<97>>
B == <<98>>
N(b) == [k |-> "name", b |-> b]
Ix(b) == [k |-> "idx", e |-> [k |-> "num", b |-> b]]
All == [k |-> "all"]
Sel(b) == [k |-> "sel", e |-> [k |-> "num", b |-> b]]
\* with the number at a.b, if there is one: {a.b} [a.b]
SelP == [k |-> "sel", e |-> [k |-> "path", p |-> <<N(A), N(B)>>]]
IxP == [k |-> "idx", e |-> [k |-> "path", p |-> <<N(A), N(B)>>]]
N0 == <<48>>
N1 == <<49>>
N2 == <<50>>
\* paths that can be set
Sets == << <<N(A)>>, <<N(B)>>, <<N(A), N(A)>>, <<N(A), N(B)>>, <<N(B), N(A)>>, <<N(A), N(B), N(A)>>, <<Ix(N0)>>, <<Ix(N2)>>, <<N(A), Ix(N0)>>, <<N(A), Ix(N1)>>, <<N(B), Ix(N2)>>,
           <<N(A), Ix(N1), N(B)>>, <<Ix(N1), N(A)>>, <<N(A), Ix(N0), Ix(N1)>>, <<Ix(N1), Ix(N1), N(A)>> >>
Gets == Sets \o << <<N(A), All>>, <<N(B), All>>, <<N(A), Sel(N1)>>, <<N(A), Sel(N0), N(A)>>, <<N(A), All, N(B), Ix(N0)>>, <<N(B), N(A), All>>, <<N(A), Ix(N2), N(A)>>, <<Ix(N0), N(B)>>,
           <<N(A), SelP>>, <<N(A), N(A), SelP>>, <<N(A), IxP>>, <<N(A), N(A), IxP>>, <<N(A), N(A), SelP, N(B)>> >>
Inside(e) == IF e.k = "num" THEN e.b ELSE <<97, 46, 98>>
RECURSIVE TextOf(_)
TextOf(p) == FlatCat([i \in DOMAIN p |->
               CASE p[i].k = "name" -> (IF i > 1 THEN <<46>> ELSE <<>>) \o p[i].b
                 [] p[i].k = "idx" -> <<91>> \o Inside(p[i].e) \o <<93>>
                 [] p[i].k = "all" -> <<123, 125>>
                 [] p[i].k = "sel" -> <<123>> \o Inside(p[i].e) \o <<125>>])

S(l, b) == [l |-> l, v |-> [t |-> "s", b |-> b, g |-> ""]]
I(l, b) == [l |-> l, v |-> [t |-> "i", b |-> b, g |-> "int64"]]
Roots == << <<>>, << S(0, A), S(1, B), I(2, N1), S(1, A), S(0, B), S(1, N0), S(0, A), S(1, <<120>>) >>,
            << I(0, N2), S(0, A), S(0, A), S(1, A), S(2, A), S(2, B), S(1, B), I(2, N2), S(1, A) >> >>
Values == << [t |-> "s", b |-> <<118>>, g |-> ""], [t |-> "i", b |-> <<51>>, g |-> "int64"], [t |-> "n", b |-> <<>>, g |-> ""] >>
Tree1 == << S(0, A), S(1, <<116>>), I(0, N2) >>
NoV == [t |-> "n", b |-> <<>>, g |-> ""]
\* the ways of setting path i
Ways(i) == {[o |-> "set", s |-> TextOf(Sets[i]), p |-> <<>>, v |-> Values[x], n |-> <<>>, at |-> i] : x \in DOMAIN Values}
      \cup ({[o |-> "setg", s |-> TextOf(Sets[i]), p |-> <<>>, v |-> NoV, n |-> Tree1, at |-> i],
                                        [o |-> "setp", s |-> TextOf(Sets[i]), p |-> A, v |-> NoV, n |-> <<>>, at |-> i]})
      \cup (IF Sets[i][1].k = "idx" THEN {} ELSE {[o |-> "eval", s |-> TextOf(Sets[i]) \o <<43, 61, 53>>, p |-> <<>>, v |-> NoV, n |-> <<>>, at |-> i]})   \* path+=5

VARIABLES root, h, ops, v
vars == <<root, h, ops, v>>
Start(r) == Plant(HeapInit(0), Str_(<<95>>), Roots[r])
Ctx == 1
Init == root \in DOMAIN Roots /\ h = Start(root).h /\ ops = <<>> /\ v = NilV

\* [h, v, u]
Doing(hp, op) ==
  CASE op.o = "set" -> SetPath(hp, Ctx, Sets[op.at], V(op.v))
    [] op.o = "setg" -> LET y == Plant(hp, Str_(<<95>>), op.n) IN SetPath(y.h, Ctx, Sets[op.at], G(y.id))
    [] op.o = "setp" -> LET r == WalkFrom(hp, Ctx, <<N(A)>>, "get") IN SetPath(r.h, Ctx, Sets[op.at], G(r.v.id))
    [] op.o = "eval" -> Eval(hp, Ctx, [k |-> "bin", o |-> "+=", a |-> [k |-> "path", p |-> Sets[op.at]], b |-> [k |-> "num", b |-> <<53>>]], "eval")
Next == /\ Len(ops) < MaxSets
        /\ \E i \in DOMAIN Sets : \E op \in Ways(i) :
             /\ IF ops = <<>> THEN TRUE ELSE (5 * i + 3 * ops[1].at + Len(op.o) + Len(op.v.b) + root) % Every = 0
             /\ Doing(h, op).u = ""
             /\ h' = Doing(h, op).h /\ v' = Doing(h, op).v /\ ops' = Append(ops, op) /\ UNCHANGED root
Spec == Init /\ [][Next]_vars

TypeOk == h.n[Ctx].v = Str_(<<95>>)
\* what was set is what is got
GetSet == ops # <<>> =>
  LET op == ops[Len(ops)]
      p == Sets[op.at]
      g == WalkFrom(h, Ctx, p, "get")
      held == IF p[Len(p)].k = "idx" THEN Has(g.h, Kids(g.h, g.v.id)[1]) ELSE First(g.h, g.v.id) IN
  /\ g.u = "" /\ g.v.t = "g"
  /\ op.o = "set" => held = (IF op.v.t = "n" /\ p[Len(p)].k # "idx" THEN Nil_ ELSE [t |-> op.v.t, b |-> op.v.b, g |-> op.v.g])
  /\ op.o = "setg" => FlatBelow(g.h, IF p[Len(p)].k = "idx" THEN Kids(g.h, g.v.id)[1] ELSE g.v.id, 0) = [i \in DOMAIN Tree1 |-> [l |-> Tree1[i].l, v |-> [t |-> "s", b |-> StrOf(Tree1[i].v)]]]
\* getting changes nothing, and a path got in two steps is that got in one
\* no index or selector depends on the context
Closed(p) == \A i \in DOMAIN p : p[i].k \in {"idx", "sel"} => p[i].e.k = "num"
GetPure == \A i \in DOMAIN Gets :
  LET g == WalkFrom(h, Ctx, Gets[i], "get") IN
  /\ \A x \in DOMAIN h.n : g.h.n[x] = h.n[x]
  /\ Len(Gets[i]) > 1 /\ Closed(Gets[i]) /\ Gets[i][2].k = "name" /\ Gets[i][1].k = "name" =>
       LET g1 == WalkFrom(h, Ctx, <<Gets[i][1]>>, "get")
           g2 == IF g1.v.id = 0 THEN g1 ELSE WalkFrom(h, g1.v.id, Tail(Gets[i]), "get") IN
       g2.v.id = g.v.id /\ (g.v.id > 0 => Same(g.h, g.v.id, g2.v.id))
\* nodes on the path: those that are there before the setting
RECURSIVE Trail(_, _, _)
Trail(hp, x, p) == IF x = 0 \/ p = <<>> THEN <<x>>
                   ELSE <<x>> \o (IF p[1].k = "name" THEN Trail(hp, Named(hp, x, p[1].b), Tail(p))
                                  ELSE LET n == ToInt(IntFromText(p[1].e.b)) IN IF n < Len(Kids(hp, x)) THEN Trail(hp, Kids(hp, x)[n + 1], Tail(p)) ELSE <<>>)
Frame == [][ops' # ops => LET p == Sets[ops'[Len(ops')].at] IN
              \A x \in DOMAIN h.n : /\ h'.n[x] # h.n[x] => Contains(Trail(h, Ctx, p), x)
                                    /\ h'.n[x].v = h.n[x].v]_vars

Op(o, s) == [o |-> o, s |-> s, p |-> <<>>, v |-> NoV, n |-> <<>>]
Strip(o) == [o |-> o.o, s |-> o.s, p |-> o.p, v |-> o.v, n |-> o.n]
GetOps == [i \in DOMAIN Gets |-> Op("get", TextOf(Gets[i]))] \o [i \in DOMAIN Gets |-> Op("evalp", TextOf(Gets[i]))]
Export == Len(ops) >= MaxSets => PrintT("CASE " \o ToJson([root |-> Roots[root], ops |-> [i \in DOMAIN ops |-> Strip(ops[i])] \o GetOps]))
=============================================================================

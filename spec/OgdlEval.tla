------------------------------ MODULE OgdlEval ------------------------------
(***************************************************************************)
(* What paths, assignments, expressions and templates do, over trees in    *)
(* memory (OgdlHeap).  c is the context: the node in which paths begin.    *)
(*                                                                         *)
(* Values are contents with an id: [t, b, g, id].  t is as in OgdlTypes,   *)
(* or "g" for a tree (id its top node), or "e" for an error.               *)
(* Results are [h, v, u]: the heap afterwards, the value, and whether they *)
(* are unspecified here (u # ""; it says why), which ends the judgement.   *)
(***************************************************************************)
EXTENDS OgdlHeap, OgdlSyntax, OgdlEmit

V(x) == IF x.t \in {"n", "x"} THEN [t |-> "n", b |-> <<>>, g |-> "", id |-> 0] ELSE [t |-> x.t, b |-> x.b, g |-> x.g, id |-> 0]
NilV == V(Nil_)
ErrV == [NilV EXCEPT !.t = "e"]
G(x) == IF x = 0 THEN NilV ELSE [NilV EXCEPT !.t = "g", !.id = x]
IntV(a) == V(Int64_(a))
BoolV(x) == V(Bool_(x))
StrV(b) == V(Str_(b))
FloatV(d) == V([t |-> "f", b |-> FloatNorm(d), g |-> "float64"])
Ret(h, v) == [h |-> h, v |-> v, u |-> ""]
Un(h, why) == [h |-> h, v |-> NilV, u |-> why]

Has(h, x) == h.n[x].v
Kids(h, x) == IF x = 0 THEN <<>> ELSE Out(h, x)
\* what a tree holds: the content of its first subnode
First(h, x) == IF Kids(h, x) = <<>> THEN Nil_ ELSE Has(h, Kids(h, x)[1])
\* contents that are trees or native objects, or unsigned beyond int64, are outside of this specification
Odd(v) == \/ v.t \in {"g", "u", "k"} /\ ("id" \notin DOMAIN v \/ v.id = 0)
          \/ v.t = "i" /\ v.g \in {"uint", "uint64"} /\ ~FitsI64(IntFromText(v.b))
\* a value that is outside of this specification, or a tree that holds such
OddIn(h, v) == Odd(v) \/ (v.t = "g" /\ Odd(First(h, v.id)))
Simplified(h, x) == IF Len(Kids(h, x)) = 1 /\ Kids(h, Kids(h, x)[1]) = <<>> THEN V(First(h, x)) ELSE G(x)

\* a value as text (in names and concatenations): of a tree, the text of what it holds
AsText(h, v) == IF v.t = "g" THEN StrOf(First(h, v.id)) ELSE StrOf(v)

\* the nodes below x in flat form, with their texts
RECURSIVE FlatBelow(_, _, _)
FlatBelow(h, x, l) == FlatCat([i \in DOMAIN Out(h, x) |-> <<[l |-> l, v |-> [t |-> "s", b |-> StrOf(Has(h, Out(h, x)[i]))]]>> \o FlatBelow(h, Out(h, x)[i], l + 1)])
\* a value in the text of a template
Shown(h, v) == IF v.t = "g" THEN EmitText(FlatBelow(h, v.id, 0)) ELSE StrOf(v)
\* (a text that begins with a double quote is not shown as it is)
ShownOk(h, v) == v.t # "g" \/ (/\ Shown(h, v) = <<>> \/ Shown(h, v)[1] # DQ
                               /\ \A i \in DOMAIN Reach(h, v.id, <<>>) : ~Odd(Has(h, Reach(h, v.id, <<>>)[i])))

(***************************************************************************)
(* Numbers in texts, and arithmetic.                                       *)
(***************************************************************************)
OddFloat(b) == OddNumber(b) \/ IsInfText(b) \/ IsNanText(b) \/ (FloatParts(b).ok /\ ~SafeDecimal(DecimalOf(b)))
IsNum(v) == v.t \in {"i", "f"}
\* [k: "int" | "dec" | "none" | "odd", d]
DecOfInt(a) == [neg |-> a.neg, d |-> Strip0R(a.d), e |-> IF a.d = <<>> THEN Zero ELSE IntOf(Len(a.d))]
\* any value as a float: ok FALSE if it is none; odd TRUE if that is not specified
AsFloat(h, v) ==
  LET b == AsText(h, v) IN
  CASE v.t = "i" -> [ok |-> TRUE, odd |-> Len(IntFromText(v.b).d) > 15, d |-> DecOfInt(IntFromText(v.b))]
    [] v.t = "f" -> [ok |-> TRUE, odd |-> OddFloat(v.b), d |-> DecimalOf(v.b)]
    [] OTHER -> [ok |-> FloatParts(b).ok, odd |-> OddFloat(b) \/ HugeFloat(b), d |-> IF FloatParts(b).ok THEN DecimalOf(b) ELSE Decimal(FloatParts(<<48>>))]

\* decimals as integer * 10^e, with the same e
Scaled(x, e) == MkInt(x.neg, x.d \o [i \in 1 .. (ToInt(x.e) - Len(x.d) - e) |-> 0])
LowExp(x) == IF x.d = <<>> THEN 0 ELSE ToInt(x.e) - Len(x.d)
FromScaled(n, e) == Decimal([neg |-> n.neg, ip |-> n.d, fp |-> <<>>, e |-> IntOf(e)])
RECURSIVE FivePow(_)
FivePow(n) == IF n = 0 THEN <<1>> ELSE NatMul(FivePow(n - 1), <<5>>)
\* a multiple of a power of two, with at most 15 digits: exact as a float
Exact(x) == /\ Len(x.d) <= 15 /\ Small(x.e)
            /\ x.d # <<>> => LET low == LowExp(x) IN
                             /\ low \in -20 .. 20
                             /\ low < 0 => NatDivMod(x.d, FivePow(-low)).r = <<>>
FZero == Decimal(FloatParts(<<48>>))
\* x op y: [ok, d], ok FALSE where the result is not exact (rounding is not specified here)
FloatOp(x, y, op) ==
  LET bad == [ok |-> FALSE, d |-> FZero]
      good(d) == IF Exact(d) /\ ~(d.d = <<>> /\ d.neg) THEN [ok |-> TRUE, d |-> d] ELSE bad
      low == Min2(LowExp(x), LowExp(y)) IN
  IF ~Exact(x) \/ ~Exact(y) \/ (x.d = <<>> /\ x.neg) \/ (y.d = <<>> /\ y.neg) THEN bad
  ELSE CASE op = "+" -> good(FromScaled(AddI(Scaled(x, low), Scaled(y, low)), low))
         [] op = "-" -> good(FromScaled(SubI(Scaled(x, low), Scaled(y, low)), low))
         [] op = "*" -> IF (x.d = <<>> /\ y.neg) \/ (y.d = <<>> /\ x.neg) THEN bad
                        ELSE good(FromScaled(MulI(Scaled(x, LowExp(x)), Scaled(y, LowExp(y))), LowExp(x) + LowExp(y)))
         [] op = "/" -> IF y.d = <<>> \/ (x.d = <<>> /\ y.neg) THEN bad
                        ELSE LET q == NatDivMod(Scaled(x, low).d \o [i \in 1 .. 20 |-> 0], Scaled(y, low).d) IN
                             IF q.r # <<>> THEN bad ELSE good(FromScaled(MkInt(x.neg # y.neg, q.q), -20))
\* the integer part
Truncated(x) == IF x.d = <<>> \/ ToInt(x.e) <= 0 THEN Zero
                ELSE LET n == ToInt(x.e) IN
                     MkInt(x.neg, SubSeq(x.d, 1, Min2(n, Len(x.d))) \o [i \in 1 .. n - Min2(n, Len(x.d)) |-> 0])

\* arithmetic: [v, u]
Calc(h, v1, v2, op) ==
  LET r(v) == [v |-> v, u |-> ""]
      un(s) == [v |-> NilV, u |-> s]
      a == IntFromText(v1.b)
      b == IntFromText(v2.b)
      f1 == AsFloat(h, v1)
      f2 == AsFloat(h, v2) IN
  IF OddIn(h, v1) \/ OddIn(h, v2) THEN un("native object")
  ELSE IF v1.t = "i" /\ v2.t = "i" THEN
    IF b.d = <<>> /\ op \in {"/", "%"} THEN r(NilV)
    ELSE r(IntV(WrapI64(CASE op = "+" -> AddI(a, b) [] op = "-" -> SubI(a, b) [] op = "*" -> MulI(a, b)
                          [] op = "/" -> DivI(a, b) [] op = "%" -> ModI(a, b))))
  ELSE IF ~IsNum(v1) /\ (op = "+" \/ ~IsNum(v2)) THEN
    IF op = "+" THEN r(StrV(AsText(h, v1) \o AsText(h, v2))) ELSE r(NilV)
  ELSE IF (f1.ok /\ f1.odd) \/ (f2.ok /\ f2.odd) \/ (~f1.ok /\ OddFloat(AsText(h, v1))) \/ (~f2.ok /\ OddFloat(AsText(h, v2))) THEN un("float")
  ELSE IF ~f1.ok THEN r(NilV)
  ELSE LET y == IF f2.ok THEN f2.d ELSE FZero IN
       IF op = "%" THEN LET n == Truncated(y) IN
                        IF ~Small(f1.d.e) \/ ToInt(f1.d.e) > 18 \/ ToInt(y.e) > 18 THEN un("float")
                        ELSE IF n.d = <<>> THEN r(NilV) ELSE r([IntV(ModI(Truncated(f1.d), n)) EXCEPT !.g = "some"])
       ELSE LET z == FloatOp(f1.d, y, op) IN IF z.ok THEN r(FloatV(z.d)) ELSE un("rounding")

\* the first operand determines how two values are compared
CmpDec(x, y) == LET low == Min2(LowExp(x), LowExp(y)) IN CmpI(Scaled(x, low), Scaled(y, low))
Holds(c, op) == CASE op = "==" -> c = 0 [] op = "!=" -> c # 0 [] op = ">=" -> c >= 0 [] op = "<=" -> c <= 0 [] op = ">" -> c > 0 [] op = "<" -> c < 0
Compare(h, v1, v2, op) ==
  LET r(x) == [v |-> BoolV(x), u |-> ""]
      un(s) == [v |-> NilV, u |-> s]
      b2 == StrOf(v2)
      f1 == AsFloat(h, v1)
      f2 == AsFloat(h, v2) IN
  IF OddIn(h, v1) \/ OddIn(h, v2) THEN un("native object")
  ELSE IF v1.t = "i" THEN
    CASE v2.t = "i" -> r(Holds(CmpI(IntFromText(v1.b), IntFromText(v2.b)), op))
      [] v2.t = "f" -> IF f2.odd \/ ToInt(f2.d.e) > 18 THEN un("float") ELSE r(Holds(CmpI(IntFromText(v1.b), Truncated(f2.d)), op))
      [] v2.t = "g" -> un("tree compared with a number")
      [] v2.t \in {"s", "b"} -> IF IsInt64Text(b2) THEN r(Holds(CmpI(IntFromText(v1.b), IntFromText(b2)), op)) ELSE r(FALSE)
      [] OTHER -> r(FALSE)
  ELSE IF v1.t = "f" THEN
    IF f1.odd \/ (f2.ok /\ f2.odd) \/ (~f2.ok /\ OddFloat(AsText(h, v2))) \/ v2.t = "g" THEN un("float")
    ELSE IF ~f2.ok THEN r(FALSE) ELSE r(Holds(CmpDec(f1.d, f2.d), op))
  ELSE r(CASE op = "==" -> AsText(h, v1) = AsText(h, v2) [] op = "!=" -> AsText(h, v1) # AsText(h, v2) [] OTHER -> FALSE)

\* [ok, x]: the truth of a value (of a tree, that of its own content)
Truth(h, v0) ==
  LET v == IF v0.t = "g" THEN V(Has(h, v0.id)) ELSE v0 IN
  CASE v.t \in {"s", "b", "o"} -> [ok |-> v.b \in {TrueT, FalseT}, x |-> v.b = TrueT]
    [] v.t = "i" /\ v.g \in {"int", "int64", "some"} -> [ok |-> TRUE, x |-> IntFromText(v.b).d # <<>>]
    [] OTHER -> [ok |-> FALSE, x |-> FALSE]
Logic(h, v1, v2, op) ==
  LET a == Truth(h, v1)  b == Truth(h, v2) IN
  BoolV(a.ok /\ b.ok /\ (IF op = "&&" THEN a.x /\ b.x ELSE a.x \/ b.x))

(***************************************************************************)
(* Conversions of contents. Results are [ok, odd, v]; odd: not specified.  *)
(***************************************************************************)
\* a content that is a missing tree or native object is none of these
NormThis(v) == IF v.t = "x" THEN Nil_ ELSE v
No_ == [ok |-> FALSE, odd |-> FALSE, v |-> Nil_]
Odd_ == [ok |-> FALSE, odd |-> TRUE, v |-> Nil_]
Is_(v) == [ok |-> TRUE, odd |-> FALSE, v |-> v]

Texty(v) == v.t \in {"s", "b"}
\* as an integer: an integer, a text of one, or the integer part of a float, if it fits
ToInt64(v) ==
  CASE v.t = "i" -> IF FitsI64(IntFromText(v.b)) THEN Is_(Int64_(IntFromText(v.b))) ELSE No_
    [] Texty(v) -> IF IsInt64Text(v.b) THEN Is_(Int64_(IntFromText(v.b))) ELSE No_
    [] v.t = "f" -> IF IsInfText(v.b) \/ IsNanText(v.b) THEN No_
                    ELSE LET d == DecimalOf(v.b) IN
                         IF ToInt(d.e) > 25 THEN No_
                         ELSE IF FitsI64(Truncated(d)) THEN Is_(Int64_(Truncated(d))) ELSE No_
    [] OTHER -> No_
\* the text of a float, as a float
TextFloat(b) == IF OddNumber(b) \/ HugeFloat(b) THEN Odd_
                ELSE IF IsFloatText(b) THEN Is_([t |-> "f", b |-> b, g |-> "float64"]) ELSE No_

\* a heap with the tree (flat, with the top content) added: [h, id]
Plant(h, top, nodes) ==
  LET h0 == NewNode(h, top)
      r == Len(h0.n) IN
  [h |-> FoldLeft(LAMBDA a, nd : LET h1 == NewNode(a.h, nd.v) IN
                                 [h |-> AddId(h1, a.at[nd.l + 1], Len(h1.n)), at |-> SubSeq(a.at, 1, nd.l + 1) \o <<Len(h1.n)>>],
                  [h |-> h0, at |-> <<r>>], nodes).h, id |-> r]

(***************************************************************************)
(* Functions in the context: a content [t |-> "k", b |-> name].  The name  *)
(* says what the function does.  "f" params "_" result is a function; the  *)
(* object "o" has the methods Methods, named "M" params "_" result; "r" is *)
(* a remote function that returns the request, "re" one that fails.        *)
(* params: s string, i int64, n int, f float64, b bool, y bytes, g tree,   *)
(* l strings, v the rest as strings.  result: z nothing, t two results, a  *)
(* the first argument, x a missing tree; the others as params.             *)
(* The calls made are kept in h.calls, with the arguments as they were.    *)
(***************************************************************************)
Callable(v) == v.t = "k"
ObjName == <<111>>
IsRemote(b) == b[1] = 114
\* the methods of the object: M_s Ms_s Mi_i Mn_i Mf_f Mb_b Ml_s My_y Mg_a Mg_g Msif_g Mv_s Msv_g Mis_t M_z Ms_x Mbn_g
Methods == { <<77,95,115>>, <<77,115,95,115>>, <<77,105,95,105>>, <<77,110,95,105>>, <<77,102,95,102>>, <<77,98,95,98>>, <<77,108,95,115>>, <<77,121,95,121>>,
             <<77,103,95,97>>, <<77,103,95,103>>, <<77,115,105,102,95,103>>, <<77,118,95,115>>, <<77,115,118,95,103>>, <<77,105,115,95,116>>, <<77,95,122>>, <<77,115,95,120>>, <<77,98,110,95,103>> }
Params(b) == SubSeq(b, 2, Len(b) - 2)
ResultOf(b) == b[Len(b)]

\* the type of a value, as a letter (0: another)
Letter_(v) == CASE v.t = "s" -> 115 [] v.t = "o" -> 98 [] v.t = "b" -> 121 [] v.t = "g" -> 103
                [] v.t = "i" /\ v.g = "int64" -> 105 [] v.t = "i" /\ v.g = "int" -> 110
                [] v.t = "f" /\ v.g = "float64" -> 102
                [] OTHER -> 0

\* An argument: [v: content (with the id of a tree), l: texts (of a list)]
Arg(v) == [v |-> v, l |-> <<>>]
ListArg(l) == [v |-> [NilV EXCEPT !.t = "l"], l |-> l]
ZeroArg(c) == CASE c = 115 -> Arg(StrV(<<>>)) [] c = 105 -> Arg(IntV(Zero)) [] c = 110 -> Arg([IntV(Zero) EXCEPT !.g = "int"])
                [] c = 102 -> Arg(V([t |-> "f", b |-> <<48>>, g |-> "float64"])) [] c = 98 -> Arg(BoolV(FALSE)) [] c = 121 -> Arg(V(Byt_(<<>>)))
                [] c = 103 -> Arg(NilV) [] OTHER -> ListArg(<<>>)
YesWords == { <<49>>, <<116>>, <<84>>, TrueT, <<84,82,85,69>>, <<84,114,117,101>> }
NaNArg == Arg([NilV EXCEPT !.t = "f", !.b = NanWord, !.g = "float64"])
\* the value v as an argument of type c for a method: [k: "ok" | "no" | "un", a]
Convert(h, v, c) ==
  LET yes(a) == [k |-> "ok", a |-> a]
      no == [k |-> "no", a |-> ZeroArg(c)]
      un == [k |-> "un", a |-> ZeroArg(c)]
      w == NormThis(First(h, v.id))
      i64(r) == IF r.odd THEN un ELSE yes(Arg([IntV(IF r.ok THEN IntFromText(r.v.b) ELSE Zero) EXCEPT !.g = IF c = 110 THEN "int" ELSE "int64"])) IN
  IF v.t = "e" THEN yes(ZeroArg(c))
  ELSE IF v.t = "n" THEN IF c \in {102, 121} THEN un ELSE yes(ZeroArg(c))
  ELSE IF Odd(v) \/ v.g = "some" \/ (v.t = "g" /\ Odd(w)) THEN un
  ELSE IF Letter_(v) = c THEN yes(Arg(v))
  ELSE CASE v.t = "g" ->
              CASE c \in {105, 110} -> i64(ToInt64(w))
                [] c = 98 -> yes(Arg(BoolV(StrOf(w) = TrueT)))
                [] c = 115 -> yes(Arg(StrV(StrOf(w))))
                [] c \in {108, 118} -> yes(ListArg([i \in DOMAIN Kids(h, v.id) |-> StrOf(Has(h, Kids(h, v.id)[i]))]))
                [] c = 102 -> LET r == TextFloat(StrOf(w)) IN IF r.odd \/ (r.ok /\ FloatParts(r.v.b).ok /\ ~SafeDecimal(DecimalOf(r.v.b))) THEN un ELSE IF r.ok THEN yes(Arg(V(r.v))) ELSE yes(NaNArg)
                [] OTHER -> no
         [] v.t = "s" ->
              CASE c = 102 -> LET r == TextFloat(v.b) IN IF r.odd \/ (r.ok /\ FloatParts(r.v.b).ok /\ ~SafeDecimal(DecimalOf(r.v.b))) THEN un ELSE IF r.ok THEN yes(Arg(V(r.v))) ELSE yes(ZeroArg(c))
                [] c = 98 -> yes(Arg(BoolV(v.b \in YesWords)))
                [] c = 105 -> IF IsIntText(v.b) /\ ~IsInt64Text(v.b) THEN un ELSE i64(ToInt64(v))
                [] OTHER -> no
         [] v.t = "i" /\ v.g = "int64" /\ c = 102 -> IF Len(IntFromText(v.b).d) > 15 THEN un ELSE yes(Arg(FloatV(DecOfInt(IntFromText(v.b)))))
         [] v.t = "i" /\ v.g = "int64" /\ c = 110 -> i64(ToInt64(v))
         [] v.t = "f" /\ v.g = "float64" /\ c \in {105, 110} -> IF ToInt64(v).ok THEN i64(ToInt64(v)) ELSE un
         [] OTHER -> no

\* What the functions of the harness do.
ArgText(h, a) == CASE a.v.t = "l" -> FlatCat([i \in DOMAIN a.l |-> (IF i > 1 THEN <<43>> ELSE <<>>) \o a.l[i]])
                   [] a.v.t = "g" -> StrOf(First(h, a.v.id))
                   [] OTHER -> StrOf(a.v)
\* a result: tree: it is one (perhaps missing)
Value_(h, v) == [h |-> h, v |-> v, u |-> "", tree |-> FALSE]
Tree_(h, x) == [h |-> h, v |-> G(x), u |-> "", tree |-> TRUE]
Gives(h, b, args) ==
  LET texts == [i \in DOMAIN args |-> ArgText(h, args[i])]
      all == FlatCat([i \in DOMAIN texts |-> (IF i > 1 THEN <<124>> ELSE <<>>) \o texts[i]])
      n == Len(all)
      r == ResultOf(b)
      nd(l, v) == [l |-> l, v |-> v]
      tr == Plant(h, Str_(<<95>>), << nd(0, Str_(<<110>>)), nd(1, Int64_(IntOf(n))), nd(0, Str_(<<97>>)) >> \o [i \in DOMAIN texts |-> nd(1, Str_(texts[i]))]) IN
  CASE r \in {115, 116} -> Value_(h, StrV(<<114, 58>> \o all))
    [] r = 121 -> Value_(h, V(Byt_(all)))
    [] r = 105 -> Value_(h, IntV(IntOf(n)))
    [] r = 110 -> Value_(h, [IntV(IntOf(n)) EXCEPT !.g = "int"])
    [] r = 102 -> Value_(h, FloatV(Decimal([neg |-> FALSE, ip |-> IntOf(25 * n).d, fp |-> <<>>, e |-> IntOf(-2)])))
    [] r = 98 -> Value_(h, BoolV(n % 2 = 0))
    [] r = 103 -> Tree_(tr.h, tr.id)
    [] r = 97 -> Tree_(h, args[1].v.id)
    [] r = 120 -> Tree_(h, 0)
    [] OTHER -> Value_(h, NilV)
\* the arguments, as they are recorded: [v: content, n: flat subnodes]
RECURSIVE FlatOf(_, _, _)
FlatOf(h, x, l) == <<[l |-> l, v |-> Has(h, x)]>> \o FlatCat([i \in DOMAIN Kids(h, x) |-> FlatOf(h, Kids(h, x)[i], l + 1)])
Recorded(h, a) == [v |-> [t |-> a.v.t, b |-> a.v.b, g |-> a.v.g],
                   n |-> IF a.v.t = "g" THEN FlatOf(h, a.v.id, 0) ELSE [i \in DOMAIN a.l |-> [l |-> 0, v |-> Str_(a.l[i])]]]
Called(h, b, args) == Gives([h EXCEPT !.calls = Append(@, [f |-> b, a |-> [i \in DOMAIN args |-> Recorded(h, args[i])]])], b, args)
Failed_(h) == [h |-> h, v |-> ErrV, u |-> "", tree |-> FALSE]
Unsaid_(h, why) == [h |-> h, v |-> NilV, u |-> why, tree |-> FALSE]

\* (an argument that cannot be evaluated is the zero value)
\* a function is called if there are as many arguments as parameters, of the same types
CallPlain(h, b, vs) ==
  LET ps == Params(b) IN
  IF Contains(ps, 118) THEN Unsaid_(h, "variadic function")
  ELSE IF Len(vs) # Len(ps) THEN Failed_(h)
  ELSE IF \E i \in DOMAIN vs : Odd(vs[i]) \/ vs[i].g = "some" \/ (vs[i].t = "n" /\ ps[i] # 103) THEN Unsaid_(h, "missing argument")
  ELSE IF \E i \in DOMAIN vs : vs[i].t \notin {"n", "e"} /\ Letter_(vs[i]) # ps[i] THEN Failed_(h)
  ELSE Called(h, b, [i \in DOMAIN vs |-> IF vs[i].t = "e" THEN ZeroArg(ps[i]) ELSE Arg(vs[i])])
\* a method is called with its arguments converted, zero where there are none, and not those in excess
CallMethod(h, b, vs) ==
  LET ps == Params(b)
      as == [i \in DOMAIN ps |-> IF i > Len(vs) THEN [k |-> "ok", a |-> ZeroArg(ps[i])] ELSE Convert(h, vs[i], ps[i])] IN
  IF \E i \in DOMAIN as : as[i].k = "un" THEN Unsaid_(h, "argument")
  ELSE IF \E i \in DOMAIN as : as[i].k = "no" THEN Failed_(h)
  ELSE Called(h, b, [i \in DOMAIN as |-> as[i].a])
\* a remote function is called with a tree: the method, with the arguments below
CallRemote(h, b, m, vs) ==
  LET h1 == NewNode(h, Str_(<<95>>))
      x == Len(h1.n)
      h2 == NewNode(h1, Str_(m))
      h3 == AddId(h2, x, x + 1)
      h4 == FoldLeft(LAMBDA a, v : IF v.t = "g" THEN AddTree(a, x + 1, v.id).h ELSE IF v.t = "e" THEN a ELSE AddValue(a, x + 1, [t |-> v.t, b |-> v.b, g |-> v.g]).h, h3, vs)
      h5 == [h4 EXCEPT !.calls = Append(@, [f |-> b, a |-> <<Recorded(h4, Arg(G(x)))>>])] IN
  IF \E i \in DOMAIN vs : Odd(vs[i]) THEN Unsaid_(h, "argument") ELSE Tree_(h5, IF Len(b) = 1 THEN x ELSE 0)

(***************************************************************************)
(* Paths and expressions.                                                  *)
(***************************************************************************)
RECURSIVE HasAssign(_)
HasAssign(a) == CASE a.k = "bin" -> a.o \in Assigns \/ HasAssign(a.a) \/ HasAssign(a.b)
                  [] a.k \in {"un", "grp"} -> HasAssign(a.a)
                  [] a.k = "path" -> \E i \in DOMAIN a.p : (a.p[i].k \in {"idx", "sel", "grp"} /\ HasAssign(a.p[i].e))
                                                          \/ (a.p[i].k = "args" /\ \E m \in DOMAIN a.p[i].l : HasAssign(a.p[i].l[m]))
                  [] OTHER -> FALSE

LenName == <<95,108,101,110>>                                       \* _len
ThisName == <<95,116,104,105,115>>                                  \* _this
ThisStringName == <<95,116,104,105,115,83,116,114,105,110,103>>     \* _thisString
StringName == <<95,115,116,114,105,110,103>>                        \* _string
JsonName == <<95,106,115,111,110>>                                  \* _json
\* names that begin with ! are the marks of parsed forms
MarkName(b) == b # <<>> /\ b[1] = 33

\* mode: "get" (Get), "eval" (in expressions), "list" (in $for: not simplified)
RECURSIVE Eval(_, _, _, _), CallsIn(_, _, _), ArgsOf(_, _, _, _), Goes(_, _, _, _, _), Walk(_, _, _, _, _, _), WalkName(_, _, _, _, _, _, _), IndexOf(_, _, _), Assign(_, _, _, _), SetPath(_, _, _, _)

\* s: where the path has arrived: [x node, px previous node, pn name looked up there, root: ends with an index]
Walk(h, c, p, i, s, mode) ==
  IF s.x = 0 \/ i > Len(p) THEN
    IF s.x # 0 /\ s.root THEN LET h1 == NewNode(h, Str_(<<91>>))
                                  h2 == AddId(h1, Len(h1.n), s.x) IN
                              Ret(h2, IF mode = "eval" THEN Simplified(h2, Len(h1.n)) ELSE G(Len(h1.n)))
    ELSE Ret(h, IF mode = "eval" THEN Simplified(h, s.x) ELSE G(s.x))
  ELSE LET e == p[i] IN
  CASE e.k = "name" ->
         IF mode # "get" /\ e.b = LenName THEN Ret(h, V([t |-> "i", b |-> IntBytes(IntOf(Len(Kids(h, s.x)))), g |-> "int"]))
         ELSE IF mode # "get" /\ e.b = ThisName THEN Ret(h, G(s.x))
         ELSE IF mode # "get" /\ e.b = ThisStringName THEN IF Odd(Has(h, s.x)) THEN Un(h, "native object") ELSE Ret(h, StrV(StrOf(Has(h, s.x))))
         ELSE IF mode # "get" /\ e.b = StringName THEN IF Odd(First(h, s.x)) THEN Un(h, "native object") ELSE Ret(h, StrV(StrOf(First(h, s.x))))
         ELSE IF MarkName(e.b) \/ (mode # "get" /\ e.b = JsonName) THEN Un(h, "name")
         ELSE WalkName(h, c, p, i, s, e.b, mode)
    [] e.k = "grp" ->
         LET r == Eval(h, c, e.e, "eval") IN
         IF r.u # "" THEN r
         ELSE IF r.v.t = "e" THEN Ret(r.h, ErrV)
         ELSE IF OddIn(r.h, r.v) \/ MarkName(AsText(r.h, r.v)) THEN Un(h, "name")
         ELSE IF AsText(r.h, r.v) = <<>> THEN Ret(r.h, NilV)
         ELSE WalkName(r.h, c, p, i, s, AsText(r.h, r.v), mode)
    [] e.k = "idx" ->
         LET r == IndexOf(h, c, e.e) IN
         IF r.u # "" THEN r
         ELSE IF r.n < 0 THEN Ret(r.h, ErrV)
         ELSE Walk(r.h, c, p, i + 1, [s EXCEPT !.x = IF r.n < Len(Kids(r.h, s.x)) THEN Kids(r.h, s.x)[r.n + 1] ELSE 0, !.px = 0, !.root = TRUE], mode)
    [] e.k \in {"all", "sel"} ->
         IF s.px = 0 THEN Un(h, "selector without a name")
         ELSE LET r == IF e.k = "all" THEN [h |-> h, n |-> 0, u |-> ""] ELSE IndexOf(h, c, e.e)
                  same == SelectSeq(Kids(r.h, s.px), LAMBDA z : StrOf(Has(r.h, z)) = s.pn)
                  h1 == NewNode(r.h, Str_(<<123>>))
                  x == Len(h1.n)
                  outs == IF e.k = "all" THEN FlatCat([z \in DOMAIN same |-> Kids(h, same[z])]) ELSE Kids(r.h, same[r.n + 1]) IN
              IF r.u # "" THEN Un(r.h, r.u)
              ELSE IF r.n < 0 THEN Ret(r.h, ErrV)
              ELSE IF e.k = "sel" /\ r.n >= Len(same) THEN Ret(r.h, NilV)
              ELSE Walk(SetOut(h1, x, outs), c, p, i + 1, [x |-> x, px |-> 0, pn |-> <<>>, root |-> FALSE], mode)
    [] e.k = "args" ->
         LET k == First(h, s.x)
             as == ArgsOf(h, c, e.l, "eval") IN
         IF ~Callable(k) THEN IF Odd(k) THEN Un(h, "function") ELSE Ret(h, NilV)
         ELSE IF k.b = ObjName THEN Ret(h, ErrV)
         ELSE IF IsRemote(k.b) THEN Un(h, "remote function without a method")
         ELSE IF as.u # "" THEN Un(h, as.u)
         ELSE Goes(c, p, i + 1, CallPlain(as.h, k.b, as.vs), mode)

WalkName(h, c, p, i, s, b, mode) ==
  LET m == Named(h, s.x, b) IN
  IF m = 0 /\ Callable(First(h, s.x)) THEN
    LET k == First(h, s.x)
        as == IF i < Len(p) /\ p[i + 1].k = "args" THEN ArgsOf(h, c, p[i + 1].l, IF IsRemote(k.b) THEN "eval" ELSE "list") ELSE [h |-> h, vs |-> <<>>, u |-> ""]
        j == IF i < Len(p) /\ p[i + 1].k = "args" THEN i + 2 ELSE i + 1
        r == IF k.b = ObjName THEN CallMethod(as.h, b, as.vs) ELSE CallRemote(as.h, k.b, b, as.vs) IN
    IF i = 1 \/ p[i].k # "name" \/ ~(k.b = ObjName \/ IsRemote(k.b)) THEN Un(h, "function")
    ELSE IF as.u # "" THEN Un(h, as.u)
    ELSE IF k.b = ObjName /\ b \notin Methods THEN IF as.h = h THEN Ret(h, ErrV) ELSE Un(h, "arguments of an unknown method")
    ELSE IF j > Len(p) /\ r.tree THEN Ret(r.h, r.v)      \* as it is, not simplified
    ELSE Goes(c, p, j, r, mode)
  ELSE IF m = 0 /\ Odd(First(h, s.x)) THEN Un(h, "function")
  ELSE IF m = 0 THEN Ret(h, NilV)
  ELSE Walk(h, c, p, i + 1, [x |-> m, px |-> IF b = <<>> THEN 0 ELSE s.x, pn |-> b, root |-> FALSE], mode)

\* the values of arguments, in order
ArgsOf(h, c, l, mode) ==
  FoldLeft(LAMBDA a, e : IF a.u # "" THEN a
                         ELSE LET r == Eval(a.h, c, e, mode) IN [h |-> r.h, vs |-> Append(a.vs, r.v), u |-> r.u],
           [h |-> h, vs |-> <<>>, u |-> ""], l)
\* the path goes on from the result r of a call
Goes(c, p, i, r, mode) ==
  IF r.u # "" THEN Un(r.h, r.u)
  ELSE IF r.v.t = "e" THEN Ret(r.h, ErrV)
  ELSE IF r.tree THEN Walk(r.h, c, p, i, [x |-> r.v.id, px |-> 0, pn |-> <<>>, root |-> FALSE], mode)
  ELSE IF i <= Len(p) THEN Un(r.h, "path below a value")
  ELSE Ret(r.h, IF mode = "get" THEN ErrV ELSE r.v)

WalkFrom(h, c, p, mode) == Walk(h, c, p, 1, [x |-> c, px |-> 0, pn |-> <<>>, root |-> FALSE], mode)

\* [h, n, u]: the number that an index expression gives, or -1
IndexOf(h, c, a) ==
  LET r == Eval(h, c, a, "eval") IN
  IF r.u # "" THEN [h |-> h, n |-> -1, u |-> r.u, v |-> NilV]
  ELSE LET n == IntFromText(r.v.b) IN
       [h |-> r.h, u |-> "", v |-> NilV, n |-> IF r.v.t # "i" \/ n.neg THEN -1 ELSE IF Small(n) THEN ToInt(n) ELSE 100000000]

\* whether calls are made by it, or that is not specified
CallsIn(h, c, a) == LET r == Eval(h, c, a, "eval") IN r.u # "" \/ r.h.calls # h.calls
Eval(h, c, a, mode) ==
  CASE a.k = "num" -> IF IsIntText(a.b) THEN (IF IsInt64Text(a.b) THEN Ret(h, IntV(IntFromText(a.b))) ELSE Un(h, "big number"))
                      ELSE IF SafeDecimal(DecimalOf(a.b)) /\ ~(DecimalOf(a.b).neg /\ DecimalOf(a.b).d = <<>>) THEN Ret(h, FloatV(DecimalOf(a.b))) ELSE Un(h, "float")
    [] a.k = "str" -> Ret(h, StrV(a.b))
    [] a.k = "path" -> WalkFrom(h, c, a.p, mode)
    [] a.k = "grp" -> Eval(h, c, a.a, mode)
    [] a.k = "un" ->
         LET r == Eval(h, c, a.a, "eval") IN
         IF r.u # "" THEN r
         ELSE IF OddIn(r.h, r.v) THEN Un(h, "native object")
         ELSE IF a.o = "!" THEN Ret(r.h, BoolV(~(Truth(r.h, r.v).ok /\ Truth(r.h, r.v).x)))
         ELSE IF r.v.t = "e" THEN Ret(r.h, NilV)
         ELSE IF a.o = "+" THEN r
         ELSE LET z == Calc(r.h, IntV(Zero), r.v, "-") IN [h |-> r.h, v |-> z.v, u |-> z.u]
    [] a.k = "bin" ->
         IF HasAssign(a.a) \/ HasAssign(a.b) THEN Un(h, "order of evaluation")
         ELSE LET r2 == Eval(h, c, a.b, "eval") IN
         IF r2.u # "" THEN r2
         ELSE IF r2.v.t = "e" THEN IF a.o \notin Assigns /\ CallsIn(r2.h, c, a.a) THEN Un(h, "whether both operands are evaluated") ELSE Ret(r2.h, NilV)
         ELSE IF a.o \in Assigns THEN Assign(r2.h, c, a, r2.v)
         ELSE LET r1 == Eval(r2.h, c, a.a, "eval") IN
         IF r1.u # "" THEN r1
         ELSE IF r1.v.t = "e" THEN IF r2.h.calls # h.calls THEN Un(h, "whether both operands are evaluated") ELSE Ret(r1.h, NilV)
         ELSE CASE a.o \in {"+", "-", "*", "/", "%"} -> LET z == Calc(r1.h, r1.v, r2.v, a.o) IN [h |-> r1.h, v |-> z.v, u |-> z.u]
                [] a.o \in {"&&", "||"} -> IF OddIn(r1.h, r1.v) \/ OddIn(r1.h, r2.v) THEN Un(h, "native object") ELSE Ret(r1.h, Logic(r1.h, r1.v, r2.v, a.o))
                [] OTHER -> LET z == Compare(r1.h, r1.v, r2.v, a.o) IN [h |-> r1.h, v |-> z.v, u |-> z.u]

(***************************************************************************)
(* Setting. A tree as a value: its subnodes become those of the node set.  *)
(***************************************************************************)
Infinity == <<105,110,102,105,110,105,116,121>>
Undefined == <<117,110,100,101,102,105,110,101,100>>
Assign(h, c, a, v) ==
  IF a.a.k # "path" THEN Un(h, "assignment to a value")
  ELSE IF a.o = "=" THEN SetPath(h, c, a.a.p, v)
  ELSE LET op == CASE a.o = "+=" -> "+" [] a.o = "-=" -> "-" [] a.o = "*=" -> "*" [] a.o = "/=" -> "/" [] a.o = "%=" -> "%"
           l == WalkFrom(h, c, a.a.p, "get")
           z == Calc(l.h, V(First(l.h, l.v.id)), v, op)
           z0 == Calc(l.h, IntV(Zero), v, "-") IN
       IF l.u # "" THEN l
       ELSE IF Kids(l.h, l.v.id) # <<>> THEN IF z.u # "" THEN Un(h, z.u) ELSE SetPath(l.h, c, a.a.p, z.v)
       ELSE CASE op = "+" -> SetPath(l.h, c, a.a.p, v)
              [] op = "-" -> IF z0.u # "" THEN Un(h, z0.u) ELSE SetPath(l.h, c, a.a.p, z0.v)
              [] op = "*" -> SetPath(l.h, c, a.a.p, V([t |-> "i", b |-> <<48>>, g |-> "int"]))
              [] op = "/" -> SetPath(l.h, c, a.a.p, StrV(Infinity))
              [] op = "%" -> SetPath(l.h, c, a.a.p, StrV(Undefined))

RECURSIVE Fill(_, _, _)      \* subnodes of x up to index n
Fill(h, x, n) == IF Len(Kids(h, x)) > n THEN h ELSE LET h1 == NewNode(h, Str_(<<95>>)) IN Fill(AddId(h1, x, Len(h1.n)), x, n)

\* the node x gets the value v as all it holds
PutValue(h, x, v) ==
  CASE v.t = "n" -> Ret(SetOut(h, x, <<>>), NilV)
    [] v.t = "g" -> IF Contains(Reach(h, v.id, <<>>), x)
                    THEN LET k1 == CloneIn(h, v.id) IN Ret(SetOut(k1.h, x, Out(k1.h, k1.id)), G(k1.id))   \* it would be below itself
                    ELSE Ret(SetOut(h, x, Out(h, v.id)), v)
    [] OTHER -> LET h1 == NewNode(h, [t |-> v.t, b |-> v.b, g |-> v.g]) IN Ret(SetOut(h1, x, <<Len(h1.n)>>), G(Len(h1.n)))

RECURSIVE SetFrom(_, _, _, _, _, _)
SetFrom(h, c, p, i, x, v) ==
  IF i > Len(p) THEN PutValue(h, x, v)
  ELSE CASE p[i].k = "name" ->
              IF MarkName(p[i].b) THEN Un(h, "name")
              ELSE LET m == NodeOrNew(h, x, p[i].b) IN SetFrom(m.h, c, p, i + 1, m.id, v)
         [] p[i].k = "idx" ->
              LET r == IndexOf(h, c, p[i].e)
                  f == Fill(r.h, x, r.n)
                  h1 == NewNode(f, [t |-> v.t, b |-> v.b, g |-> v.g]) IN
              IF r.u # "" THEN Un(h, r.u)
              ELSE IF r.n < 0 THEN Ret(r.h, NilV)
              ELSE IF r.n > 1000 THEN Un(h, "big index")
              ELSE IF i < Len(p) THEN SetFrom(f, c, p, i + 1, Kids(f, x)[r.n + 1], v)
              ELSE IF v.t = "g" THEN      \* its subnodes, below a node without a name
                   LET c1 == IF Contains(Reach(f, v.id, <<>>), x) THEN CloneIn(f, v.id) ELSE [h |-> f, id |-> v.id]
                       h2 == NewNode(c1.h, Str_(<<95>>))
                       h3 == SetOut(h2, Len(h2.n), Out(h2, c1.id)) IN
                   Ret([h3 EXCEPT !.n[x].out[r.n + 1] = Len(h3.n)], G(Len(h3.n)))
              ELSE Ret([h1 EXCEPT !.n[x].out[r.n + 1] = Len(h1.n)], G(Len(h1.n)))
         [] OTHER -> Un(h, "not a path to set")
SetPath(h, c, p, v) == IF Odd(v) THEN Un(h, "native object") ELSE SetFrom(h, c, p, 1, c, v)

(***************************************************************************)
(* Templates. Results are [h, o, u, brk]: the text, and whether $break ended it. *)
(***************************************************************************)
RECURSIVE Render(_, _, _), RenderPiece(_, _, _), Branch(_, _, _, _)
Render(h, c, b) ==
  FoldLeft(LAMBDA s, i : IF s.brk \/ s.u # "" THEN s
                         ELSE LET r == RenderPiece(s.h, c, b[i]) IN [r EXCEPT !.o = s.o \o r.o],
           [h |-> h, o |-> <<>>, u |-> "", brk |-> FALSE], [i \in DOMAIN b |-> i])
Says(h, o) == [h |-> h, o |-> o, u |-> "", brk |-> FALSE]
RenderPiece(h, c, x) ==
  CASE x.k = "text" -> Says(h, x.b)
    [] x.k = "var" -> LET r == WalkFrom(h, c, x.p, "eval") IN
                      IF r.u # "" \/ OddIn(r.h, r.v) \/ ~ShownOk(r.h, r.v) THEN [Says(h, <<>>) EXCEPT !.u = "value: " \o r.u]
                      ELSE Says(r.h, Shown(r.h, r.v))
    [] x.k = "do" -> LET r == Eval(h, c, x.a, "eval") IN [Says(r.h, <<>>) EXCEPT !.u = r.u]
    [] x.k = "break" -> [Says(h, <<>>) EXCEPT !.brk = TRUE]
    [] x.k = "if" -> Branch(h, c, x, 1)
    [] x.k = "for" ->
         LET r == Eval(h, c, x.l, "list")
             top == IF r.v.t = "g" /\ Has(r.h, r.v.id) = Str_(<<91>>) THEN Kids(r.h, r.v.id)[1] ELSE r.v.id
             elems == Kids(r.h, top)
             h1 == NewNode(SetOut(r.h, c, SelectSeq(Kids(r.h, c), LAMBDA z : Has(r.h, z) # Str_(x.v))), Str_(x.v))
             it == Len(h1.n)
             h2 == AddId(h1, c, it) IN
         IF r.u # "" \/ HasAssign(x.l) THEN [Says(h, <<>>) EXCEPT !.u = "list: " \o r.u]
         ELSE IF MarkName(x.v) THEN [Says(h, <<>>) EXCEPT !.u = "name"]
         ELSE IF r.v.t # "g" \/ Kids(r.h, r.v.id) = <<>> THEN Says(r.h, <<>>)
         ELSE LET l == FoldLeft(LAMBDA s, e : IF s.brk \/ s.u # "" THEN s
                                              ELSE IF Contains(Reach(s.h, e, <<>>), it) THEN [s EXCEPT !.u = "loop variable below itself"]
                                              ELSE LET y == Render(SetOut(s.h, it, <<e>>), c, x.b) IN [y EXCEPT !.o = s.o \o y.o],
                                Says(h2, <<>>), elems) IN
              [l EXCEPT !.brk = FALSE]
Branch(h, c, x, i) ==
  IF i > Len(x.c) THEN Render(h, c, x.e)
  ELSE LET r == Eval(h, c, x.c[i], "eval") IN
       IF r.u # "" \/ OddIn(r.h, r.v) THEN [Says(h, <<>>) EXCEPT !.u = "condition: " \o r.u]
       ELSE IF Truth(r.h, r.v).ok /\ Truth(r.h, r.v).x THEN Render(r.h, c, x.b[i])
       ELSE Branch(r.h, c, x, i + 1)

\* Trees as they are compared: missing and nil contents are the same, floats are normal, and the type of an integer does not matter
NormC(v) == CASE v.t = "x" -> Nil_ [] v.t = "f" /\ IsNanText(v.b) -> [v EXCEPT !.b = NanWord] [] v.t \in {"k", "u"} -> [t |-> "u", b |-> <<>>, g |-> ""] [] v.t = "f" /\ FloatParts(v.b).ok -> [v EXCEPT !.b = FloatNorm(DecimalOf(v.b))] [] v.t = "i" -> [v EXCEPT !.g = "int64"] [] OTHER -> v
NormHeap(d) == [r |-> d.r, n |-> [i \in DOMAIN d.n |-> [v |-> NormC(d.n[i].v), o |-> d.n[i].o]]]
=============================================================================

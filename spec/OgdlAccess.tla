----------------------------- MODULE OgdlAccess -----------------------------
(***************************************************************************)
(* The accessors: what a node says it is, as a number, a truth value, a    *)
(* text, bytes.  A node's value is the content of its first subnode; its   *)
(* own content is asked for by the This... accessors.                      *)
(* Results of conversions are [ok, odd, v]; odd: not specified here.       *)
(***************************************************************************)
EXTENDS OgdlEval

ToFloat(v) == CASE v.t \in {"i", "f"} -> Is_([t |-> "f", b |-> v.b, g |-> "float64"]) [] OTHER -> TextFloat(StrOf(v))
\* as a truth value: one, a text of one, or an integer (not nil if not zero)
ToBool(v) ==
  CASE v.t = "o" \/ Texty(v) -> IF v.b \in {TrueT, FalseT} THEN Is_(Bool_(v.b = TrueT)) ELSE No_
    [] v.t = "i" /\ v.g \in {"int", "int64"} -> Is_(Bool_(IntFromText(v.b).d # <<>>))
    [] OTHER -> No_
TextBool(b) == IF b \in {TrueT, FalseT} THEN Is_(Bool_(b = TrueT)) ELSE No_
\* a number of one of two types
\* spaces around an integer make it no number
SpacedInt(b) == LET s == TrimLeftSpace(b) u == IF s # <<>> /\ s[1] = 45 THEN From(s, 2) ELSE s IN
                u # <<>> /\ IsDigit(u[1]) /\ AllBytes(TrimRightSpace(u), IsDigit)
ToNumber(v) ==
  IF v.t = "n" THEN No_
  ELSE IF v.t = "f" THEN ToFloat(v)
  ELSE IF v.t = "i" THEN ToInt64(v)
  ELSE LET b == StrOf(v) IN
       IF b = <<>> THEN No_
       ELSE IF SpacedInt(b) THEN ToInt64(Str_(b)) ELSE TextFloat(b)
ToScalar(v) == LET n == ToNumber(v) IN
               IF n.ok \/ n.odd THEN n ELSE IF ToBool(v).ok THEN ToBool(v) ELSE Is_(v)

AsBytes(v) == IF v.t = "n" THEN Nil_ ELSE Byt_(StrOf(v))
Join(ss, sep) == FoldLeft(LAMBDA a, i : a \o (IF i > 1 THEN sep ELSE <<>>) \o ss[i], <<>>, [i \in DOMAIN ss |-> i])

\* v is the result c, or what is given if there is none
FEq(v, w) == v.t = "f" /\ w.t = "f" /\ FloatIs(v, w.b)
ValIs(v, w) == IF w.t = "f" THEN v.g = w.g /\ FEq(v, w) ELSE v = w
Result(v, c, other) == c.odd \/ (IF c.ok THEN ValIs(v, c.v) ELSE ValIs(v, other))
Fl(b) == [t |-> "f", b |-> b, g |-> "float64"]
NaN_ == Fl(NanWord)
Zero_ == Int64_(Zero)
Seventy7 == Int64_(IntOf(77))
TwoHalf == Fl(<<50, 46, 53>>)
FZero_ == Fl(<<48>>)
DfltT == <<100,102,108,116>>

\* What is observed (a) of the node x of the heap h (0: there is no node)
Answers(h, x, a) ==
  LET this == IF x = 0 THEN Nil_ ELSE NormThis(Has(h, x))
      v == NormThis(First(h, x))
      s == StrOf(v)
      all == [i \in DOMAIN Kids(h, x) |-> StrOf(Has(h, Kids(h, x)[i]))]
      d == IF x = 0 THEN DfltT ELSE <<>>
      or(t) == IF x = 0 THEN DfltT ELSE t IN
  /\ a.len = (IF x = 0 THEN -1 ELSE Len(Kids(h, x)))
  /\ Result(a.i, ToInt64(v), Zero_) /\ Result(a.id, ToInt64(v), Seventy7)
  /\ Result(a.f, TextFloat(s), NaN_) /\ Result(a.fd, TextFloat(s), TwoHalf)
  /\ a.b = (s = TrueT) /\ a.bt = (s # FalseT) /\ a.bf = (s = TrueT)
  /\ a.s = s /\ a.sd = or(s)
  /\ a.ts = StrOf(this) /\ a.tsd = or(StrOf(this))
  /\ a.ss = all
  /\ a.csv = Join(all, <<44, 32>>) /\ a.csvd = or(Join(all, <<44, 32>>))
  /\ a.txt = Join(all, <<32>>) /\ a.txtd = or(Join(all, <<32>>))
  /\ a.by = AsBytes(v) /\ a.tby = AsBytes(this)
  /\ Result(a.num, ToNumber(v), Nil_) /\ Result(a.tnum, ToNumber(this), Nil_)
  /\ Result(a.ti, ToInt64(this), Zero_) /\ (ToInt64(this).odd \/ a.tiok = (x # 0 /\ ToInt64(this).ok))
  /\ Result(a.tf, ToFloat(this), FZero_) /\ (ToFloat(this).odd \/ a.tfok = (x # 0 /\ ToFloat(this).ok))
  /\ Result(a.sc, ToScalar(v), Nil_)
  /\ Result(a.tsc, ToScalar(IF this.t = "n" THEN v ELSE this), Nil_)
  /\ ValIs(a.itf, v)

\* What is observed (o) of the path that leads to x ("" is the node itself: then nothing is an error)
PathAnswers(h, x, o, empty) ==
  LET v == NormThis(First(h, x))
      none == x = 0 \/ Kids(h, x) = <<>>
      res(y, e, c, other) == c.odd \/ (e = (none \/ ~c.ok) /\ ValIs(y, IF ~none /\ c.ok THEN c.v ELSE other)) IN
  IF empty THEN /\ ~o.se /\ ~o.be /\ ~o.ie /\ ~o.fe /\ ~o.oe
                /\ o.s = StrOf(v) /\ o.b = AsBytes(v) /\ Result(o.i, ToInt64(v), Zero_) /\ Result(o.f, TextFloat(StrOf(v)), NaN_) /\ o.o = (StrOf(v) = TrueT)
  ELSE /\ o.se = none /\ o.s = StrOf(v)
       /\ o.be = none /\ o.b = AsBytes(v)
       /\ res(o.i, o.ie, ToInt64(v), Zero_)
       /\ res(o.f, o.fe, ToFloat(v), FZero_)
       /\ res(Bool_(o.o), o.oe, ToBool(v), Bool_(FALSE))

\* which subnodes match
Infix(p, s) == \E i \in 0 .. Len(s) - Len(p) : SubSeq(s, i + 1, i + Len(p)) = p
Matches(f, s) == CASE f.k = "sub" -> Infix(f.s, s)
                   [] f.k = "pre" -> Len(s) >= Len(f.s) /\ SubSeq(s, 1, Len(f.s)) = f.s
                   [] f.k = "suf" -> Len(s) >= Len(f.s) /\ From(s, Len(s) - Len(f.s) + 1) = f.s
                   [] f.k = "eq" -> s = f.s
                   [] f.k = "all" -> TRUE
FindAnswers(h, x, f, a) ==
  IF f.k = "bad" THEN a.nil /\ a.err
  ELSE /\ ~a.err /\ ~a.nil
       /\ a.w = (IF x = 0 THEN <<>> ELSE SelectSeq([i \in DOMAIN Kids(h, x) |-> i], LAMBDA i : Matches(f, StrOf(Has(h, Kids(h, x)[i])))))
=============================================================================

------------------------------ MODULE OgdlNum ------------------------------
(***************************************************************************)
(* Numbers.  Integers are 64 bit in the implementation while TLC has 32:   *)
(* they are kept as [neg, d] with d a sequence of decimal digits, most     *)
(* significant first, without leading zeros (zero is <<>>, not negative).  *)
(***************************************************************************)
EXTENDS OgdlBytes

\* ---------------------------------------------------------------- naturals
RECURSIVE Strip0(_)
Strip0(d) == IF d # <<>> /\ d[1] = 0 THEN Strip0(From(d, 2)) ELSE d

NatCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpBytes(a, b)

Dig(a, i) == IF i <= Len(a) THEN a[Len(a) + 1 - i] ELSE 0     \* i-th from the right

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET t == Dig(a, i) + Dig(b, i) + carry IN Append(AddFrom(a, b, i + 1, t \div 10), t % 10)
NatAdd(a, b) == AddFrom(a, b, 1, 0)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, borrow) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == Dig(a, i) - Dig(b, i) - borrow IN
       Append(SubFrom(a, b, i + 1, IF t < 0 THEN 1 ELSE 0), (t + 10) % 10)
NatSub(a, b) == Strip0(SubFrom(a, b, 1, 0))                   \* a >= b

RECURSIVE MulDigit(_, _, _, _)
MulDigit(a, k, i, carry) ==
  IF i > Len(a) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET t == Dig(a, i) * k + carry IN Append(MulDigit(a, k, i + 1, t \div 10), t % 10)
NatMul(a, b) == Strip0(FoldLeft(LAMBDA acc, k : NatAdd(Append(acc, 0), MulDigit(a, k, 1, 0)), <<>>, b))

\* long division: [q, r]
NatDivMod(a, b) ==
  FoldLeft(LAMBDA acc, k :
             LET r0 == Strip0(Append(acc.r, k))
                 q  == CHOOSE x \in 0 .. 9 : NatCmp(Strip0(MulDigit(b, x, 1, 0)), r0) <= 0
                                             /\ NatCmp(Strip0(MulDigit(b, x + 1, 1, 0)), r0) > 0
             IN [q |-> Strip0(Append(acc.q, q)), r |-> NatSub(r0, Strip0(MulDigit(b, q, 1, 0)))],
           [q |-> <<>>, r |-> <<>>], a)

\* ---------------------------------------------------------------- integers
MkInt(neg, d) == [neg |-> neg /\ Strip0(d) # <<>>, d |-> Strip0(d)]
IntOf(n) == MkInt(n < 0, [i \in DOMAIN NatText(IF n < 0 THEN -n ELSE n) |-> NatText(IF n < 0 THEN -n ELSE n)[i] - 48])
Zero == MkInt(FALSE, <<>>)
Neg(a) == MkInt(~a.neg, a.d)
AddI(a, b) == IF a.neg = b.neg THEN MkInt(a.neg, NatAdd(a.d, b.d))
              ELSE IF NatCmp(a.d, b.d) >= 0 THEN MkInt(a.neg, NatSub(a.d, b.d))
              ELSE MkInt(b.neg, NatSub(b.d, a.d))
SubI(a, b) == AddI(a, Neg(b))
MulI(a, b) == MkInt(a.neg # b.neg, NatMul(a.d, b.d))
\* division truncates towards zero, and the remainder has the sign of the dividend
DivI(a, b) == MkInt(a.neg # b.neg, NatDivMod(a.d, b.d).q)
ModI(a, b) == MkInt(a.neg, NatDivMod(a.d, b.d).r)
CmpI(a, b) == IF a.neg # b.neg THEN (IF a.neg THEN -1 ELSE 1)
              ELSE IF a.neg THEN NatCmp(b.d, a.d) ELSE NatCmp(a.d, b.d)

\* 2^63 and 2^64
P63 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
P64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,6>>
FitsI64(a) == IF a.neg THEN NatCmp(a.d, P63) <= 0 ELSE NatCmp(a.d, P63) < 0
\* two's complement wrap around of a result
WrapI64(a) ==
  IF FitsI64(a) THEN a
  ELSE LET r == ModI(a, MkInt(FALSE, P64))                       \* |r| < 2^64
           p == IF r.neg THEN AddI(r, MkInt(FALSE, P64)) ELSE r   \* 0 <= p < 2^64
       IN IF FitsI64(p) THEN p ELSE SubI(p, MkInt(FALSE, P64))

IntBytes(a) == (IF a.neg THEN <<45>> ELSE <<>>) \o (IF a.d = <<>> THEN <<48>> ELSE [i \in DOMAIN a.d |-> a.d[i] + 48])
\* small value as a TLC integer (caller knows it fits)
ToNat(d) == FoldLeft(LAMBDA acc, k : acc * 10 + k, 0, d)
ToInt(a) == IF a.neg THEN -ToNat(a.d) ELSE ToNat(a.d)
Small(a) == Len(a.d) <= 8

\* ------------------------------------------------------------------ syntax
Digits(b) == [i \in DOMAIN b |-> b[i] - 48]
Unsigned(b) == IF b # <<>> /\ (b[1] = 43 \/ b[1] = 45) THEN From(b, 2) ELSE b
Negative(b) == b # <<>> /\ b[1] = 45

\* [+-] digits
IsIntText(b) == LET u == Unsigned(b) IN u # <<>> /\ AllBytes(u, IsDigit)
IntFromText(b) == MkInt(Negative(b), Digits(Unsigned(b)))
\* A text that is read as an int64
IsInt64Text(b) == IsIntText(b) /\ FitsI64(IntFromText(b))

\* [+-] digits [. digits] [(e|E) [+-] digits], with a digit in the mantissa
FloatParts(b) ==
  LET u  == Unsigned(b)
      i1 == SkipDigits(u, 1)
      dot == i1 <= Len(u) /\ u[i1] = 46
      i2 == IF dot THEN SkipDigits(u, i1 + 1) ELSE i1
      ip == SubSeq(u, 1, i1 - 1)
      fp == IF dot THEN SubSeq(u, i1 + 1, i2 - 1) ELSE <<>>
      ex == From(u, i2)
      eok == ex = <<>> \/ (Lower(ex[1]) = 101 /\ IsIntText(From(ex, 2)))
      e  == IF ex = <<>> THEN Zero ELSE IF eok THEN IntFromText(From(ex, 2)) ELSE Zero
  IN [ok |-> (ip # <<>> \/ fp # <<>>) /\ eok, neg |-> Negative(b), ip |-> Digits(ip), fp |-> Digits(fp), e |-> e]

LowerAll(b) == [i \in DOMAIN b |-> Lower(b[i])]
InfWords == { <<105,110,102>>, <<105,110,102,105,110,105,116,121>> }        \* inf, infinity
NanWord  == <<110,97,110>>
IsInfText(b) == LowerAll(Unsigned(b)) \in InfWords
IsNanText(b) == LowerAll(b) = NanWord

\* Normal form of a decimal: the value is 0.d * 10^e (d without zeros at the ends)
RECURSIVE Strip0R(_)
Strip0R(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Strip0R(SubSeq(d, 1, Len(d) - 1)) ELSE d
Decimal(p) ==
  LET all == p.ip \o p.fp
      st  == Strip0(all)
      lead == Len(all) - Len(st)
      d   == Strip0R(st)
  IN IF d = <<>> THEN [neg |-> p.neg, d |-> <<>>, e |-> Zero]
     ELSE [neg |-> p.neg, d |-> d, e |-> AddI(p.e, IntOf(Len(p.ip) - lead))]
DecimalOf(b) == Decimal(FloatParts(b))

\* A decimal as text that does not depend on how it was written: 0.ddd e exponent
FloatNorm(x) == (IF x.neg THEN <<45>> ELSE <<>>) \o <<48, 46>> \o [i \in DOMAIN x.d |-> x.d[i] + 48] \o <<101>> \o IntBytes(x.e)
\* The text of a float: its digits, with an exponent if that is below -4 or above 5 (at most 15 digits)
FloatText(b) ==
  LET x == DecimalOf(b)
      ds == [i \in DOMAIN x.d |-> x.d[i] + 48]
      n == Len(ds)
      e == ToInt(x.e) - 1
      ea == IF e < 0 THEN -e ELSE e
      zeros(m) == [i \in 1 .. m |-> 48] IN
  IF IsInfText(b) THEN (IF Negative(b) THEN <<45>> ELSE <<43>>) \o <<73,110,102>>
  ELSE IF IsNanText(b) THEN <<78,97,78>>
  ELSE (IF x.neg THEN <<45>> ELSE <<>>) \o
       (IF n = 0 THEN <<48>>
        ELSE IF e < -4 \/ e >= 6 THEN <<ds[1]>> \o (IF n > 1 THEN <<46>> \o From(ds, 2) ELSE <<>>)
                                       \o <<101, IF e < 0 THEN 45 ELSE 43>> \o (IF ea < 10 THEN <<48>> ELSE <<>>) \o NatText(ea)
        ELSE IF e < 0 THEN <<48, 46>> \o zeros(-e - 1) \o ds
        ELSE IF n <= e + 1 THEN ds \o zeros(e + 1 - n)
        ELSE SubSeq(ds, 1, e + 1) \o <<46>> \o From(ds, e + 2))

\* Texts that may be hexadecimal or have underscores: their reading is not specified here
OddNumber(b) == \E i \in DOMAIN b : b[i] \in {120, 88, 95}                  \* x X _
\* The float is in the range in which its shortest text has the digits of the original
SafeDecimal(x) == Len(x.d) <= 15 /\ Small(x.e) /\ ToInt(x.e) \in -290 .. 290
=============================================================================

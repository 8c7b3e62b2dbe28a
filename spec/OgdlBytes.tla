----------------------------- MODULE OgdlBytes -----------------------------
(***************************************************************************)
(* Text is a sequence of bytes (integers 0..255).  Classification of bytes *)
(* and small helpers shared by all modules.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

TAB == 9   LF == 10   CR == 13   SP == 32
DQ == 34   SQ == 39   BQ == 96   BSL == 92   HASH == 35   COMMA == 44
EOS == -1           \* the end of the stream, as a pseudo byte

IsSpace(c) == c = SP \/ c = TAB
IsBreak(c) == c = LF \/ c = CR
IsText(c)  == c > 32
IsDigit(c) == c >= 48 /\ c <= 57
IsQuote(c) == c = DQ \/ c = SQ \/ c = BQ
Letter(c)  == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
Lower(c)   == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* Everything from position i on (empty if there is nothing)
From(s, i) == SubSeq(s, i, Len(s))

\* s without trailing elements equal to c
RECURSIVE TrimRight(_, _)
TrimRight(s, c) == IF s # <<>> /\ s[Len(s)] = c THEN TrimRight(SubSeq(s, 1, Len(s) - 1), c) ELSE s

RECURSIVE TrimLeft(_, _)
TrimLeft(s, c) == IF s # <<>> /\ s[1] = c THEN TrimLeft(From(s, 2), c) ELSE s

RECURSIVE TrimLeftSpace(_)
TrimLeftSpace(s) == IF s # <<>> /\ IsSpace(s[1]) THEN TrimLeftSpace(From(s, 2)) ELSE s
RECURSIVE TrimRightSpace(_)
TrimRightSpace(s) == IF s # <<>> /\ IsSpace(s[Len(s)]) THEN TrimRightSpace(SubSeq(s, 1, Len(s) - 1)) ELSE s

HasByte(s, c) == \E i \in DOMAIN s : s[i] = c
AnyByte(s, P(_)) == \E i \in DOMAIN s : P(s[i])
AllBytes(s, P(_)) == \A i \in DOMAIN s : P(s[i])

\* First position >= i that is not a digit, or Len(s)+1
RECURSIVE SkipDigits(_, _)
SkipDigits(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN SkipDigits(s, i + 1) ELSE i

\* -1, 0, 1: comparison of byte strings, as in Go
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i + 1)
CmpBytes(a, b) == CmpFrom(a, b, 1)

RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatText(n \div 10), 48 + (n % 10))
IntText(n) == IF n < 0 THEN <<45>> \o NatText(-n) ELSE NatText(n)

FlatCat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
=============================================================================

----------------------------- MODULE OgdlCursor -----------------------------
(***************************************************************************)
(* The lexer as a cursor over the bytes of its input: what each of its     *)
(* elementary operations returns, and where it leaves the cursor.  At the  *)
(* end of the input, reading returns EOS and leaves the cursor one beyond, *)
(* so that it can be unread like anything else.                            *)
(*   state: [p (bytes before the cursor), u (sizes of the runes read, for  *)
(*   unreading), v (value returned, a sequence), x (no more specified)]    *)
(***************************************************************************)
EXTENDS OgdlBytes

\* UTF-8: the character at position i (from 1) of s: [c, n]; an invalid one is 65533 of one byte
Cont(s, i) == i <= Len(s) /\ s[i] >= 128 /\ s[i] < 192
Bad == [c |-> 65533, n |-> 1]
Utf8(s, i) ==
  LET a == s[i] IN
  IF a < 128 THEN [c |-> a, n |-> 1]
  ELSE IF a >= 194 /\ a < 224 THEN IF Cont(s, i + 1) THEN [c |-> (a - 192) * 64 + s[i + 1] - 128, n |-> 2] ELSE Bad
  ELSE IF a >= 224 /\ a < 240 THEN
    IF Cont(s, i + 1) /\ Cont(s, i + 2)
    THEN LET c == (a - 224) * 4096 + (s[i + 1] - 128) * 64 + s[i + 2] - 128 IN
         IF c < 2048 \/ (c >= 55296 /\ c < 57344) THEN Bad ELSE [c |-> c, n |-> 3]
    ELSE Bad
  ELSE IF a >= 240 /\ a < 245 THEN
    IF Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3)
    THEN LET c == (a - 240) * 262144 + (s[i + 1] - 128) * 4096 + (s[i + 2] - 128) * 64 + s[i + 3] - 128 IN
         IF c < 65536 \/ c > 1114111 THEN Bad ELSE [c |-> c, n |-> 4]
    ELSE Bad
  ELSE Bad

CurInit == [p |-> 0, u |-> <<>>, v |-> <<>>, x |-> FALSE]
AtEOS(s, t) == s.p >= Len(t)

ReadByte(s, t) ==
  IF AtEOS(s, t) THEN [s EXCEPT !.p = Len(t) + 1, !.v = <<EOS>>, !.x = @ \/ s.p > Len(t)]
  ELSE [s EXCEPT !.p = @ + 1, !.v = <<t[s.p + 1]>>]
ReadRune(s, t) ==
  IF AtEOS(s, t) THEN [s EXCEPT !.p = Len(t) + 1, !.u = Append(@, 1), !.v = <<EOS>>, !.x = @ \/ s.p > Len(t)]
  ELSE LET c == Utf8(t, s.p + 1) IN [s EXCEPT !.p = @ + c.n, !.u = Append(@, c.n), !.v = <<c.c>>]

\* position after the longest run of bytes in a class, from position p
RECURSIVE RunEnd(_, _, _)
InClass(cl, c) == CASE cl = "text" -> IsText(c) [] cl = "space" -> IsSpace(c) [] cl = "digit" -> IsDigit(c)
                    [] cl = "white" -> IsSpace(c) \/ IsBreak(c) [] cl = "line" -> c >= 32 \/ c = TAB
RunEnd(t, p, cl) == IF p < Len(t) /\ InClass(cl, t[p + 1]) THEN RunEnd(t, p + 1, cl) ELSE p
\* letters, digits and _ ; of the characters beyond ASCII, these tests use only some
Letters == {233, 26085, 26412}
TokenChar(c) == IF c < 128 THEN Letter(c) \/ IsDigit(c) \/ c = 95 ELSE c \in Letters
RECURSIVE TokenEnd(_, _)
TokenEnd(t, p) == IF p < Len(t) /\ TokenChar(Utf8(t, p + 1).c) THEN TokenEnd(t, p + Utf8(t, p + 1).n) ELSE p

YesNo(b) == IF b THEN <<1>> ELSE <<0>>
Run(s, t, e) == [s EXCEPT !.p = e, !.v = YesNo(e > s.p) \o SubSeq(t, s.p + 1, e)]
IsEnd(c) == c < 32 /\ c # TAB /\ ~IsBreak(c)
\* an operation that begins beyond the end leaves the cursor at the end
Sane(s, t) == [s EXCEPT !.p = Min2(@, Len(t))]

Once(s, t, o) ==
  CASE o \in {1, 13} -> ReadByte(s, t)
    [] o \in {2, 14} -> [s EXCEPT !.p = Max2(0, @ - 1), !.v = <<>>]
    [] o \in {3, 17} -> ReadRune(s, t)
    [] o = 4 -> IF s.u = <<>> THEN [s EXCEPT !.v = <<-2>>]
                ELSE [s EXCEPT !.p = @ - s.u[Len(s.u)], !.u = SubSeq(@, 1, Len(@) - 1), !.v = <<>>]
    [] o = 5 -> IF AtEOS(s, t) THEN [s EXCEPT !.p = Len(t) + 1, !.v = <<0>>] ELSE [s EXCEPT !.v = <<t[s.p + 1]>>]
    [] o = 6 -> IF AtEOS(s, t) THEN [ReadRune(s, t) EXCEPT !.v = <<0>>] ELSE [s EXCEPT !.v = <<Utf8(t, s.p + 1).c>>]
    [] o = 7 -> Run(Sane(s, t), t, RunEnd(t, Sane(s, t).p, "text"))
    [] o = 8 -> LET b == Sane(s, t)
                    e == RunEnd(t, b.p, "space")
                    w == SubSeq(t, b.p + 1, e) IN
                [b EXCEPT !.p = e, !.v = <<e - b.p, IF ~HasByte(w, TAB) THEN SP ELSE IF ~HasByte(w, SP) THEN TAB ELSE 0>>]
    [] o = 9 -> LET b == Sane(s, t) IN
                IF AtEOS(b, t) THEN [b EXCEPT !.v = <<0>>]
                ELSE IF t[b.p + 1] = CR
                     THEN [b EXCEPT !.v = <<1>>, !.p = IF b.p + 2 <= Len(t) /\ t[b.p + 2] = LF THEN @ + 2 ELSE @ + 1]
                     ELSE IF t[b.p + 1] = LF THEN [b EXCEPT !.v = <<1>>, !.p = @ + 1] ELSE [b EXCEPT !.v = <<0>>]
    [] o = 10 -> LET b == Sane(s, t)
                     e == RunEnd(t, b.p, "white") IN [b EXCEPT !.p = e, !.v = YesNo(e > b.p)]
    [] o = 11 -> Run(Sane(s, t), t, RunEnd(t, Sane(s, t).p, "digit"))
    [] o = 12 -> LET b == Sane(s, t) IN [Run(b, t, TokenEnd(t, b.p)) EXCEPT !.u = <<>>, !.x = FALSE]
    [] o = 15 -> IF AtEOS(s, t) THEN [s EXCEPT !.p = Len(t) + 1, !.v = <<1>>]
                 ELSE IF IsEnd(t[s.p + 1]) THEN [s EXCEPT !.p = @ + 1, !.v = <<1>>] ELSE [s EXCEPT !.v = <<0>>]
    [] o = 16 -> LET b == Sane(s, t) IN
                 IF b.p + 2 <= Len(t) /\ t[b.p + 1] = HASH /\ IsSpace(t[b.p + 2])
                 THEN LET e == RunEnd(t, b.p + 2, "line") IN [b EXCEPT !.v = <<1>>, !.p = e + 1]   \* with its end
                 ELSE [b EXCEPT !.v = <<0>>]

Times(s, t, o, n) == IF n = 1 THEN Once(s, t, o) ELSE FoldLeft(LAMBDA q, i : Once(q, t, o), s, [i \in 1 .. n |-> i])
\* after a compound operation, what it consumed cannot be unread as characters
Operate(s, t, op) ==
  LET q == IF op[1] \in {7, 8, 9, 10, 11, 12, 15, 16} THEN [s EXCEPT !.u = <<>>] ELSE s IN
  IF op[1] = 13 /\ q.p + op[2] <= Len(t) THEN [q EXCEPT !.p = @ + op[2], !.v = <<t[q.p + op[2]]>>]
  ELSE IF op[1] = 14 THEN [q EXCEPT !.p = Max2(0, @ - op[2]), !.v = <<>>]
  ELSE Times(q, t, op[1], op[2])
=============================================================================

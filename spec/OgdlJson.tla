------------------------------ MODULE OgdlJson ------------------------------
(***************************************************************************)
(* JSON texts, and the trees that they are imported as.                    *)
(* Values: [k: "obj", m: sequence of [n: name, v: value]], [k: "arr", e:   *)
(* sequence of values], [k: "num", b], [k: "str", b, odd], [k: "true"...]. *)
(* Parsing gives [ok, v, i]: the value and the position after it.          *)
(***************************************************************************)
EXTENDS OgdlAccess

Fail == [ok |-> FALSE, v |-> [k |-> "null"], i |-> 0]
Parsed(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
JAt(t, i) == IF i <= Len(t) THEN t[i] ELSE EOS
White(c) == c \in {32, 9, 10, 13}
RECURSIVE Blank(_, _)
Blank(t, i) == IF White(JAt(t, i)) THEN Blank(t, i + 1) ELSE i

\* Unicode
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Replacement == <<239, 191, 189>>
Cont(c) == c \in 128 .. 191
\* the length of the well formed character at i, or 0
CharLen(t, i) ==
  LET a == JAt(t, i)  b == JAt(t, i + 1)  c == JAt(t, i + 2)  d == JAt(t, i + 3) IN
  IF a < 128 THEN 1
  ELSE IF a \in 194 .. 223 /\ Cont(b) THEN 2
  ELSE IF a \in 224 .. 239 /\ Cont(b) /\ Cont(c) /\ (a = 224 => b >= 160) /\ (a = 237 => b < 160) THEN 3
  ELSE IF a \in 240 .. 244 /\ Cont(b) /\ Cont(c) /\ Cont(d) /\ (a = 240 => b >= 144) /\ (a = 244 => b < 144) THEN 4
  ELSE 0

HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF Lower(c) \in 97 .. 102 THEN Lower(c) - 87 ELSE -1
Hex4(t, i) == IF \E m \in 0 .. 3 : HexVal(JAt(t, i + m)) < 0 THEN -1
              ELSE ((HexVal(t[i]) * 16 + HexVal(t[i + 1])) * 16 + HexVal(t[i + 2])) * 16 + HexVal(t[i + 3])
EscapeChar == [c \in {34, 92, 47, 98, 102, 110, 114, 116} |-> CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]

\* the characters of a string up to the closing quote
RECURSIVE StringFrom(_, _, _)
StringFrom(t, i, b) ==
  LET c == JAt(t, i) IN
  IF c < 32 THEN Fail                                        \* the end, or a control character
  ELSE IF c = DQ THEN Parsed([k |-> "str", b |-> b], i + 1)
  ELSE IF c # BSL THEN LET n == CharLen(t, i) IN
                       IF n = 0 THEN StringFrom(t, i + 1, b \o Replacement) ELSE StringFrom(t, i + n, b \o SubSeq(t, i, i + n - 1))
  ELSE LET e == JAt(t, i + 1) IN
       IF e \in DOMAIN EscapeChar THEN StringFrom(t, i + 2, Append(b, EscapeChar[e]))
       ELSE IF e # 117 \/ Hex4(t, i + 2) < 0 THEN Fail
       ELSE LET u == Hex4(t, i + 2)
                lo == IF JAt(t, i + 6) = BSL /\ JAt(t, i + 7) = 117 THEN Hex4(t, i + 8) ELSE -1 IN
            IF u \in 55296 .. 56319 /\ lo \in 56320 .. 57343 THEN StringFrom(t, i + 12, b \o Utf8(65536 + (u - 55296) * 1024 + (lo - 56320)))
            ELSE IF u \in 55296 .. 57343 THEN StringFrom(t, i + 6, b \o Replacement)
            ELSE StringFrom(t, i + 6, b \o Utf8(u))

\* - digits (no zero in front) . digits e digits
NumberFrom(t, i) ==
  LET i1 == IF JAt(t, i) = 45 THEN i + 1 ELSE i
      i2 == IF JAt(t, i1) = 48 THEN i1 + 1 ELSE SkipDigits(t, i1)
      i3 == IF JAt(t, i2) = 46 THEN SkipDigits(t, i2 + 1) ELSE i2
      sg == IF JAt(t, i3) \in {69, 101} THEN (IF JAt(t, i3 + 1) \in {43, 45} THEN i3 + 2 ELSE i3 + 1) ELSE i3
      i4 == IF sg # i3 THEN SkipDigits(t, sg) ELSE i3 IN
  IF i2 = i1 \/ i3 = i2 + 1 \/ (sg # i3 /\ i4 = sg) THEN Fail
  ELSE Parsed([k |-> "num", b |-> SubSeq(t, i, i4 - 1)], i4)
JWord(t, i, w, k) == IF SubSeq(t, i, Min2(Len(t), i + Len(w) - 1)) = w THEN Parsed([k |-> k], i + Len(w)) ELSE Fail
NullT == <<110,117,108,108>>

RECURSIVE ValueFrom(_, _), ItemsFrom(_, _, _), MembersFrom(_, _, _)
ValueFrom(t, i0) ==
  LET i == Blank(t, i0)
      c == JAt(t, i) IN
  CASE c = 123 -> IF JAt(t, Blank(t, i + 1)) = 125 THEN Parsed([k |-> "obj", m |-> <<>>], Blank(t, i + 1) + 1) ELSE MembersFrom(t, i + 1, <<>>)
    [] c = 91 -> IF JAt(t, Blank(t, i + 1)) = 93 THEN Parsed([k |-> "arr", e |-> <<>>], Blank(t, i + 1) + 1) ELSE ItemsFrom(t, i + 1, <<>>)
    [] c = DQ -> StringFrom(t, i + 1, <<>>)
    [] c = 45 \/ IsDigit(c) -> NumberFrom(t, i)
    [] c = 116 -> JWord(t, i, TrueT, "true")
    [] c = 102 -> JWord(t, i, FalseT, "false")
    [] c = 110 -> JWord(t, i, NullT, "null")
    [] OTHER -> Fail
ItemsFrom(t, i, acc) ==
  LET v == ValueFrom(t, i)
      j == Blank(t, v.i) IN
  IF ~v.ok THEN Fail
  ELSE IF JAt(t, j) = 44 THEN ItemsFrom(t, j + 1, Append(acc, v.v))
  ELSE IF JAt(t, j) = 93 THEN Parsed([k |-> "arr", e |-> Append(acc, v.v)], j + 1)
  ELSE Fail
MembersFrom(t, i0, acc) ==
  LET i == Blank(t, i0)
      n == IF JAt(t, i) = DQ THEN StringFrom(t, i + 1, <<>>) ELSE Fail
      m == Blank(t, n.i)
      v == IF n.ok /\ JAt(t, m) = 58 THEN ValueFrom(t, m + 1) ELSE Fail
      j == Blank(t, v.i)
      all == Append(acc, [n |-> n.v.b, v |-> v.v]) IN
  IF ~n.ok THEN Fail
  ELSE IF ~v.ok THEN Fail
  ELSE IF JAt(t, j) = 44 THEN MembersFrom(t, j + 1, all)
  ELSE IF JAt(t, j) = 125 THEN Parsed([k |-> "obj", m |-> all], j + 1)
  ELSE Fail
\* the value a text begins with; rest: something else follows
Json_(t) == LET v == ValueFrom(t, 1) IN [ok |-> v.ok, v |-> v.v, rest |-> v.ok /\ Blank(t, v.i) <= Len(t)]

\* of members with the same name the last one counts
Members(m) == SelectSeq([i \in DOMAIN m |-> i], LAMBDA i : \A l \in i + 1 .. Len(m) : m[l].n # m[i].n)

(***************************************************************************)
(* The tree: the nodes xs of the heap h stand for the value v.             *)
(***************************************************************************)
Under == Str_(<<95>>)
Leaf(h, xs) == IF Len(xs) = 1 /\ h.n[xs[1]].o = <<>> THEN h.n[xs[1]].v ELSE [t |-> "?", b |-> <<>>, g |-> ""]
RECURSIVE Stands(_, _, _)
Stands(h, xs, v) ==
  CASE v.k = "arr" -> /\ Len(xs) = Len(v.e)
                      /\ \A i \in DOMAIN xs : h.n[xs[i]].v = Under /\ Stands(h, h.n[xs[i]].o, v.e[i])
    [] v.k = "obj" -> LET ms == Members(v.m)
                          os == IF xs = <<>> THEN <<>> ELSE h.n[xs[1]].o IN
                      /\ Len(xs) = 1 /\ h.n[xs[1]].v = Under /\ Len(os) = Len(ms)
                      /\ \A i \in DOMAIN ms : \E x \in DOMAIN os : h.n[os[x]].v = Str_(v.m[ms[i]].n) /\ Stands(h, h.n[os[x]].o, v.m[ms[i]].v)
    [] v.k = "num" -> IF IsInt64Text(v.b) THEN Leaf(h, xs) = Int64_(IntFromText(v.b))
                      ELSE LET l == Leaf(h, xs) IN l.t = "f" /\ l.g = "float64" /\ (HugeFloat(v.b) \/ FloatIs(l, v.b))
    [] v.k = "str" -> Leaf(h, xs) = Str_(v.b)
    [] v.k = "true" -> Leaf(h, xs) = Bool_(TRUE)
    [] v.k = "false" -> Leaf(h, xs) = Bool_(FALSE)
    [] v.k = "null" -> xs = <<>>
\* what is returned for a value: d is the dump with the returned tree as its register
Imported(d, v) ==
  LET r == d.r[1] IN
  CASE v.k = "arr" -> r # 0 /\ Stands(d, d.n[r].o, v)
    [] v.k = "null" -> r = 0
    [] OTHER -> r # 0 /\ Stands(d, <<r>>, v)
=============================================================================

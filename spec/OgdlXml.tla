------------------------------- MODULE OgdlXml -------------------------------
(***************************************************************************)
(* XML documents, and the trees that they are imported as.                 *)
(* Xml(t) is [n: the nodes, in flat form (level l, bytes b); end: "end",   *)
(* "error" (the rest of the document is not well formed: what was read     *)
(* before it counts), or "any" (not specified from here on)].              *)
(***************************************************************************)
EXTENDS OgdlJson

LT == 60  GT == 62  AMP == 38  SLASH == 47  EQ == 61  QM == 63  EM == 33  DASH == 45  USCORE == 95  NSCOLON == 58
XWhite(c) == c \in {32, 13, 10, 9}
RECURSIVE XSpace(_, _)
XSpace(t, i) == IF XWhite(JAt(t, i)) THEN XSpace(t, i + 1) ELSE i
Starts(t, i, w) == i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w

\* Names.  Letters beyond ASCII: those of Latin 1, two bytes each
NameByte(c) == Letter(c) \/ IsDigit(c) \/ c \in {USCORE, NSCOLON, 46, DASH} \/ c >= 128
RECURSIVE NameEnd(_, _)
NameEnd(t, i) == IF NameByte(JAt(t, i)) THEN NameEnd(t, i + 1) ELSE i
LatinAt(b, i) == JAt(b, i) = 195 /\ JAt(b, i + 1) \in (128 .. 191) \ {151, 183}
\* every byte beyond ASCII belongs to such a letter
Latin(b) == \A i \in DOMAIN b : b[i] >= 128 => LatinAt(b, i) \/ (i > 1 /\ LatinAt(b, i - 1))
\* the name at i: [ok, any, b, i]
Name(t, i) ==
  LET e == NameEnd(t, i)
      b == SubSeq(t, i, e - 1) IN
  IF b = <<>> THEN [ok |-> FALSE, any |-> FALSE, b |-> b, i |-> i]
  ELSE IF e > Len(t) THEN [ok |-> FALSE, any |-> FALSE, b |-> b, i |-> i]         \* cut
  ELSE IF ~Latin(b) THEN [ok |-> TRUE, any |-> TRUE, b |-> b, i |-> e]
  ELSE [ok |-> ~IsDigit(b[1]) /\ b[1] \notin {46, DASH}, any |-> FALSE, b |-> b, i |-> e]
Colons(b) == Cardinality({x \in DOMAIN b : b[x] = NSCOLON})
\* what follows the name space
Local(b) == LET x == CHOOSE x \in DOMAIN b : b[x] = NSCOLON IN
            IF Colons(b) = 0 \/ b[1] = NSCOLON \/ b[Len(b)] = NSCOLON THEN b ELSE From(b, x + 1)
\* without accents; two bytes of a letter: the letter it is made of, or itself
Base(x) == CASE x \in 128 .. 133 -> <<65>> [] x = 135 -> <<67>> [] x \in 136 .. 139 -> <<69>> [] x \in 140 .. 143 -> <<73>> [] x = 145 -> <<78>>
             [] x \in 146 .. 150 -> <<79>> [] x \in 153 .. 156 -> <<85>> [] x = 157 -> <<89>>
             [] x \in 160 .. 165 -> <<97>> [] x = 167 -> <<99>> [] x \in 168 .. 171 -> <<101>> [] x \in 172 .. 175 -> <<105>> [] x = 177 -> <<110>>
             [] x \in 178 .. 182 -> <<111>> [] x \in 185 .. 188 -> <<117>> [] x \in {189, 191} -> <<121>>
             [] OTHER -> <<195, x>>
Plain(b) == FlatCat([i \in DOMAIN b |-> IF b[i] = 195 THEN Base(b[i + 1]) ELSE IF b[i] >= 128 THEN <<>> ELSE IF b[i] = DASH THEN <<USCORE>> ELSE <<b[i]>>])

\* Entities: [ok, b, i]
EntityOf(w) == CASE w = <<108,116>> -> <<LT>> [] w = <<103,116>> -> <<GT>> [] w = <<97,109,112>> -> <<AMP>>
                 [] w = <<97,112,111,115>> -> <<SQ>> [] w = <<113,117,111,116>> -> <<DQ>> [] OTHER -> <<>>
RECURSIVE HexEnd(_, _)
HexEnd(t, i) == IF HexVal(JAt(t, i)) >= 0 THEN HexEnd(t, i + 1) ELSE i
\* numbers beyond what a character can be stay there
NumOf(b, base) == FoldLeft(LAMBDA a, c : IF a > 1114111 THEN a ELSE a * base + HexVal(c), 0, b)
CharOf(n) == IF n > 1114111 THEN <<>> ELSE IF n \in 55296 .. 57343 THEN Replacement ELSE Utf8(n)
NoEntity == [ok |-> FALSE, b |-> <<>>, i |-> 0]
Entity(t, i) ==       \* i is that of what follows the &
  IF JAt(t, i) = HASH
    THEN LET hex == JAt(t, i + 1) = 120
             s == IF hex THEN i + 2 ELSE i + 1
             e == IF hex THEN HexEnd(t, s) ELSE SkipDigits(t, s)
             c == CharOf(NumOf(SubSeq(t, s, e - 1), IF hex THEN 16 ELSE 10)) IN
         IF e > s /\ JAt(t, e) = 59 /\ c # <<>> THEN [ok |-> TRUE, b |-> c, i |-> e + 1] ELSE NoEntity
    ELSE LET e == NameEnd(t, i)
             c == EntityOf(SubSeq(t, i, e - 1)) IN
         IF JAt(t, e) = 59 /\ c # <<>> THEN [ok |-> TRUE, b |-> c, i |-> e + 1] ELSE NoEntity

\* Only these characters may appear, however they are written
RECURSIVE Allowed(_, _)
Allowed(b, i) ==
  IF i > Len(b) THEN TRUE
  ELSE LET n == CharLen(b, i) IN
       IF n = 0 \/ (b[i] < 32 /\ b[i] \notin {9, 10, 13}) \/ (n = 3 /\ b[i] = 239 /\ b[i + 1] = 191 /\ b[i + 2] \in {190, 191}) THEN FALSE
       ELSE Allowed(b, i + n)

\* Text up to a delimiter: a quote, or -1 for the text between tags, which ends before a < and at the end of the document
\* [ok, b, i]: i is the position after the quote, or of what ends the text
NoText == [ok |-> FALSE, b |-> <<>>, i |-> 0]
RECURSIVE TextFrom(_, _, _, _, _)
TextFrom(t, i, q, b, from) ==       \* from: nothing before it may belong to ]]>
  LET c == JAt(t, i)
      done(j) == IF Allowed(b, 1) THEN [ok |-> TRUE, b |-> b, i |-> j] ELSE NoText IN
  CASE c = EOS -> IF q < 0 THEN done(i) ELSE NoText
    [] c = q -> done(i + 1)
    [] c = LT -> IF q < 0 THEN done(i) ELSE NoText
    [] c = GT /\ q < 0 /\ i - 2 >= from /\ t[i - 1] = 93 /\ t[i - 2] = 93 -> NoText
    [] c = AMP -> LET e == Entity(t, i + 1) IN IF e.ok THEN TextFrom(t, e.i, q, b \o e.b, e.i) ELSE NoText
    [] c = CR -> TextFrom(t, i + 1, q, Append(b, LF), from)
    [] c = LF /\ i > from /\ t[i - 1] = CR -> TextFrom(t, i + 1, q, b, from)
    [] OTHER -> TextFrom(t, i + 1, q, Append(b, c), from)
\* where w is found first, from i on (0: nowhere)
RECURSIVE Find(_, _, _)
Find(t, i, w) == IF i + Len(w) - 1 > Len(t) THEN 0 ELSE IF Starts(t, i, w) THEN i ELSE Find(t, i + 1, w)
\* line ends are one LF
Lines(b) == FlatCat([i \in DOMAIN b |-> IF b[i] = CR THEN <<LF>> ELSE IF b[i] = LF /\ i > 1 /\ b[i - 1] = CR THEN <<>> ELSE <<b[i]>>])

\* White space at the ends of a text
SpaceLen(b, i) == LET c == JAt(b, i)  d == JAt(b, i + 1)  e == JAt(b, i + 2) IN
  IF c \in 9 .. 13 \/ c = 32 THEN 1
  ELSE IF c = 194 /\ d \in {133, 160} THEN 2
  ELSE IF (c = 225 /\ d = 154 /\ e = 128) \/ (c = 226 /\ d = 128 /\ e \in (128 .. 138) \union {168, 169, 175}) \/ (c = 226 /\ d = 129 /\ e = 159) \/ (c = 227 /\ d = 128 /\ e = 128) THEN 3
  ELSE 0
RECURSIVE TrimFront(_), TrimBack(_)
TrimFront(b) == IF b # <<>> /\ SpaceLen(b, 1) > 0 THEN TrimFront(From(b, 1 + SpaceLen(b, 1))) ELSE b
TrimBack(b) == LET n == IF \E m \in 1 .. Min2(3, Len(b)) : SpaceLen(b, Len(b) - m + 1) = m THEN CHOOSE m \in 1 .. 3 : m <= Len(b) /\ SpaceLen(b, Len(b) - m + 1) = m ELSE 0 IN
               IF n > 0 THEN TrimBack(SubSeq(b, 1, Len(b) - n)) ELSE b
Trim(b) == TrimBack(TrimFront(b))

\* The attributes from i on, up to and with the > that ends the tag: [ok, any, a: <<[n, v]>>, empty, i]
NoTag(any) == [ok |-> FALSE, any |-> any, a |-> <<>>, empty |-> FALSE, i |-> 0]
RECURSIVE Attributes(_, _, _)
Attributes(t, i0, a) ==
  LET i == XSpace(t, i0) IN
  IF JAt(t, i) = GT THEN [ok |-> TRUE, any |-> FALSE, a |-> a, empty |-> FALSE, i |-> i + 1]
  ELSE IF JAt(t, i) = SLASH THEN (IF JAt(t, i + 1) = GT THEN [ok |-> TRUE, any |-> FALSE, a |-> a, empty |-> TRUE, i |-> i + 2] ELSE NoTag(FALSE))
  ELSE LET nm == Name(t, i)
           e == XSpace(t, nm.i)
           s == XSpace(t, e + 1)
           v == TextFrom(t, s + 1, JAt(t, s), <<>>, s + 1) IN
       IF nm.any THEN NoTag(TRUE)
       ELSE IF ~nm.ok \/ Colons(nm.b) > 1 \/ JAt(t, e) # EQ \/ JAt(t, s) \notin {SQ, DQ} THEN NoTag(FALSE)
       ELSE IF ~v.ok THEN NoTag(FALSE)
       ELSE Attributes(t, v.i, Append(a, [n |-> Local(nm.b), v |-> v.b]))

\* <! of a document type: quotes and nested declarations; 0: not specified, -1: cut
RECURSIVE DirectiveEnd(_, _, _, _)
DirectiveEnd(t, i, q, depth) ==
  LET c == JAt(t, i) IN
  CASE c = EOS -> -1
    [] q # 0 -> DirectiveEnd(t, i + 1, IF c = q THEN 0 ELSE q, depth)
    [] c = GT /\ depth = 0 -> i + 1
    [] c = GT -> DirectiveEnd(t, i + 1, 0, depth - 1)
    [] c \in {SQ, DQ} -> DirectiveEnd(t, i + 1, c, depth)
    [] c = LT -> IF JAt(t, i + 1) = EM /\ Letter(JAt(t, i + 2)) THEN DirectiveEnd(t, i + 3, 0, depth + 1) ELSE 0
    [] OTHER -> DirectiveEnd(t, i + 1, 0, depth)
\* the declaration <?xml ...?> of a version and an encoding that can be read
QUOTED(b) == {<<q>> \o b \o <<q>> : q \in {SQ, DQ}}
Low(b) == [i \in DOMAIN b |-> Lower(b[i])]
VersionT == {<<118,101,114,115,105,111,110,61>> \o q : q \in QUOTED(<<49,46,48>>)}
EncodingT == {<<>>} \union {<<32,101,110,99,111,100,105,110,103,61>> \o q : q \in QUOTED(<<117,116,102,45,56>>)}
AloneT == {<<>>} \union {<<32,115,116,97,110,100,97,108,111,110,101,61>> \o q : q \in QUOTED(<<121,101,115>>) \union QUOTED(<<110,111>>)}
Declared == {v \o e \o s : v \in VersionT, e \in EncodingT, s \in AloneT}

\* The document from position i on; open: the names of the open elements; n: the nodes so far
RECURSIVE Rest(_, _, _, _)
Rest(t, i, open, n) ==
  LET end(how) == [n |-> n, end |-> how]
      more(b) == IF Trim(b) = <<>> THEN n ELSE Append(n, [l |-> Len(open), b |-> Trim(b)]) IN
  IF i > Len(t) THEN end("end")
  ELSE IF t[i] # LT
    THEN LET x == TextFrom(t, i, -1, <<>>, i) IN
         IF x.ok THEN Rest(t, x.i, open, more(x.b)) ELSE end("error")
  ELSE IF JAt(t, i + 1) = SLASH
    THEN LET nm == Name(t, i + 2)
             e == XSpace(t, nm.i) IN
         IF nm.any THEN end("any")
         ELSE IF ~nm.ok \/ Colons(nm.b) > 1 \/ JAt(t, e) # GT \/ open = <<>> THEN end("error")
         ELSE IF open[Len(open)] # nm.b THEN end("error")
         ELSE Rest(t, e + 1, SubSeq(open, 1, Len(open) - 1), n)
  ELSE IF JAt(t, i + 1) = QM
    THEN LET nm == Name(t, i + 2)
             s == XSpace(t, nm.i)
             e == Find(t, s, <<QM, GT>>) IN
         IF nm.any THEN end("any")
         ELSE IF ~nm.ok \/ e = 0 THEN end("error")
         ELSE IF nm.b = <<120,109,108>> /\ Low(Trim(SubSeq(t, s, e - 1))) \notin Declared THEN end("any")
         ELSE Rest(t, e + 2, open, n)
  ELSE IF JAt(t, i + 1) = EM
    THEN CASE JAt(t, i + 2) = DASH ->
                 LET e == Find(t, i + 4, <<DASH, DASH>>) IN
                 IF JAt(t, i + 3) # DASH \/ e = 0 \/ JAt(t, e + 2) # GT THEN end("error") ELSE Rest(t, e + 3, open, n)
           [] JAt(t, i + 2) = 91 ->
                 LET e == Find(t, i + 9, <<93, 93, GT>>)
                     b == SubSeq(t, i + 9, e - 1) IN
                 IF ~Starts(t, i + 3, <<67,68,65,84,65,91>>) \/ e = 0 THEN end("error")
                 ELSE IF ~Allowed(Lines(b), 1) THEN end("error")
                 ELSE Rest(t, e + 3, open, more(Lines(b)))
           [] Letter(JAt(t, i + 2)) ->
                 LET e == DirectiveEnd(t, i + 3, 0, 0) IN
                 IF e = 0 THEN end("any") ELSE IF e < 0 THEN end("error") ELSE Rest(t, e, open, n)
           [] JAt(t, i + 2) = EOS -> end("error")
           [] OTHER -> end("any")
  ELSE LET nm == Name(t, i + 1)
           tag == Attributes(t, nm.i, <<>>) IN
       IF nm.any THEN end("any")
       ELSE IF ~nm.ok \/ Colons(nm.b) > 1 THEN end("error")
       ELSE IF ~tag.ok THEN end(IF tag.any THEN "any" ELSE "error")
       ELSE LET l == Len(open)
                n2 == Append(n, [l |-> l, b |-> Plain(Local(nm.b))])
                      \o FlatCat([x \in DOMAIN tag.a |-> << [l |-> l + 1, b |-> <<64>> \o tag.a[x].n], [l |-> l + 2, b |-> tag.a[x].v] >>]) IN
            Rest(t, tag.i, IF tag.empty THEN open ELSE Append(open, nm.b), n2)
Xml(t) == Rest(t, 1, <<>>, <<>>)
\* the nodes found are those of the document (all of them, or the first ones if the rest is not specified)
Found(n, x) == IF x.end = "any" THEN IsPrefix(x.n, n) ELSE n = x.n
=============================================================================

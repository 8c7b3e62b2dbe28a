----------------------------- MODULE OgdlSyntax -----------------------------
(***************************************************************************)
(* The grammar of paths, expressions and templates, from bytes to syntax   *)
(* trees.  Each reader takes the text and a position and gives [ok, i, a]: *)
(* the position behind what was read, and its tree.  Texts that are not ok *)
(* are not in the language: nothing is said about what they mean.          *)
(*                                                                         *)
(*   path     ::= element ( '.' element | index | selector | args )*       *)
(*   element  ::= token | quoted | index | selector | group                *)
(*   index    ::= '[' expr ']'     selector ::= '{' expr? '}'              *)
(*   group    ::= '(' expr (',' expr)* ')'    args ::= '(' exprs? ')'      *)
(*   expr     ::= unary ( op2 unary )*                                     *)
(*   unary    ::= path | number | quoted | ('-' | '+' | '!') unary         *)
(*              | '(' expr ')'                                             *)
(*   template ::= ( text | '$' path | '${' path '}' | '$(' expr ')'        *)
(*              | '$\' )*                                                  *)
(*                                                                         *)
(* Syntax trees: [k |-> "num" | "str" | "path" | "un" | "bin" | "grp", ..] *)
(***************************************************************************)
EXTENDS OgdlNum

At(t, i) == IF i <= Len(t) THEN t[i] ELSE EOS

\* Characters beyond ASCII are known by table: letters and others
Letters2 == { <<195,169>>, <<195,177>>, <<206,169>>, <<215,144>>, <<230,151,165>>, <<230,156,172>> }     \* é ñ Ω א 日 本
Others2 == { <<226,128,166>>, <<195,151>>, <<226,128,148>>, <<194,183>>, <<240,159,152,128>> }           \* … × — · 😀
WideAt(t, i, set) == LET m == {x \in set : SubSeq(t, i, Min2(Len(t), i + Len(x) - 1)) = x} IN
                     IF m = {} THEN 0 ELSE Len(CHOOSE x \in m : TRUE)
\* length of the letter, or token character, at i (0: it is none)
LetterAt(t, i) == LET c == At(t, i) IN
                  IF Letter(c) \/ c = 95 THEN 1 ELSE IF c >= 128 THEN WideAt(t, i, Letters2) ELSE 0
TokAt(t, i) == IF IsDigit(At(t, i)) THEN 1 ELSE LetterAt(t, i)
RECURSIVE KnownFrom(_, _)
KnownFrom(t, i) == IF i > Len(t) THEN TRUE
                   ELSE IF t[i] < 128 THEN (t[i] >= 32 \/ IsBreak(t[i]) \/ t[i] = TAB) /\ KnownFrom(t, i + 1)
                   ELSE LET n == WideAt(t, i, Letters2 \cup Others2) IN n > 0 /\ KnownFrom(t, i + n)
KnownText(t) == KnownFrom(t, 1)

RECURSIVE SkipSp(_, _)
SkipSp(t, i) == IF IsSpace(At(t, i)) THEN SkipSp(t, i + 1) ELSE i
RECURSIVE SkipWs(_, _)
SkipWs(t, i) == IF IsSpace(At(t, i)) \/ IsBreak(At(t, i)) THEN SkipWs(t, i + 1) ELSE i
RECURSIVE TokEnd(_, _)
TokEnd(t, i) == LET n == TokAt(t, i) IN IF n = 0 THEN i ELSE TokEnd(t, i + n)

No(i) == [ok |-> FALSE, i |-> i, a |-> [k |-> "none"]]
Yes(i, a) == [ok |-> TRUE, i |-> i, a |-> a]

\* a string whose quote q was read: a backslash makes a single or double quote
\* part of it, and stays in front of anything else
RECURSIVE QuotedFrom(_, _, _, _, _)
QuotedFrom(t, i, q, esc, b) ==
  LET c == At(t, i) IN
  IF c = EOS THEN No(i)
  ELSE IF c = q /\ (~esc \/ c = BQ) THEN Yes(i + 1, [k |-> "str", b |-> b])
  ELSE IF c = BSL THEN QuotedFrom(t, i + 1, q, TRUE, b)
  ELSE QuotedFrom(t, i + 1, q, FALSE, (IF esc /\ c # SQ /\ c # DQ THEN Append(b, BSL) ELSE b) \o <<c>>)

NumberAt(t, i) ==
  LET s == At(t, i) \in {43, 45}
      j == IF s THEN i + 1 ELSE i
      e1 == SkipDigits(t, j)
      e2 == IF At(t, e1) = 46 THEN SkipDigits(t, e1 + 1) ELSE e1 IN
  IF e1 = j THEN No(i)
  ELSE Yes(e2, [k |-> "num", b |-> (IF At(t, i) = 45 THEN <<45>> ELSE <<>>) \o SubSeq(t, j, e2 - 1)])

\* --------------------------------------------------------------- operators
Ops == << [o |-> "==", b |-> <<61,61>>, p |-> 3], [o |-> "!=", b |-> <<33,61>>, p |-> 3],
          [o |-> ">=", b |-> <<62,61>>, p |-> 3], [o |-> "<=", b |-> <<60,61>>, p |-> 3],
          [o |-> "&&", b |-> <<38,38>>, p |-> 2], [o |-> "||", b |-> <<124,124>>, p |-> 1],
          [o |-> "+=", b |-> <<43,61>>, p |-> 0], [o |-> "-=", b |-> <<45,61>>, p |-> 0],
          [o |-> "*=", b |-> <<42,61>>, p |-> 0], [o |-> "/=", b |-> <<47,61>>, p |-> 0], [o |-> "%=", b |-> <<37,61>>, p |-> 0],
          [o |-> "=", b |-> <<61>>, p |-> 0], [o |-> ">", b |-> <<62>>, p |-> 3], [o |-> "<", b |-> <<60>>, p |-> 3],
          [o |-> "+", b |-> <<43>>, p |-> 4], [o |-> "-", b |-> <<45>>, p |-> 4],
          [o |-> "*", b |-> <<42>>, p |-> 5], [o |-> "/", b |-> <<47>>, p |-> 5], [o |-> "%", b |-> <<37>>, p |-> 5] >>
OpChars == {43, 45, 42, 47, 37, 38, 124, 33, 60, 62, 61, 126, 94}
\* the longest operator at i: index in Ops, or 0
OpAt(t, i) == SelectInSeq(Ops, LAMBDA x : SubSeq(t, i, Min2(Len(t), i + Len(x.b) - 1)) = x.b)
Assigns == {"=", "+=", "-=", "*=", "/=", "%="}

\* operands a[1..n] with operators o[1..n-1] between them: the loosest operator,
\* the last one of these, is applied last
RECURSIVE Tree(_, _)
Tree(a, o) ==
  IF o = <<>> THEN a[1]
  ELSE LET low == CHOOSE p \in 0 .. 5 : (\E i \in DOMAIN o : Ops[o[i]].p = p) /\ \A i \in DOMAIN o : Ops[o[i]].p >= p
           m == SelectLastInSeq(o, LAMBDA x : Ops[x].p = low) IN
       [k |-> "bin", o |-> Ops[o[m]].o,
        a |-> Tree(SubSeq(a, 1, m), SubSeq(o, 1, m - 1)),
        b |-> Tree(SubSeq(a, m + 1, Len(a)), SubSeq(o, m + 1, Len(o)))]

RECURSIVE ExprAt(_, _), UnaryAt(_, _), PathFrom(_, _, _, _), ExprFrom(_, _, _, _), ArgsFrom(_, _, _)

ExprAt(t, i) == ExprFrom(t, SkipSp(t, i), <<>>, <<>>)
\* an operand is at i
ExprFrom(t, i, a, o) ==
  LET u == UnaryAt(t, i) IN
  IF ~u.ok THEN u
  ELSE LET a2 == Append(a, u.a)
           j == SkipSp(t, u.i) IN
       IF At(t, j) \notin OpChars THEN Yes(j, Tree(a2, o))
       ELSE LET x == OpAt(t, j) IN
            IF x = 0 THEN No(j) ELSE ExprFrom(t, SkipSp(t, j + Len(Ops[x].b)), a2, Append(o, x))

UnaryAt(t, i) ==
  LET c == At(t, i) IN
  IF LetterAt(t, i) > 0 THEN PathFrom(t, i, TRUE, <<>>)
  ELSE IF NumberAt(t, i).ok THEN NumberAt(t, i)
  ELSE IF IsQuote(c) THEN QuotedFrom(t, i + 1, c, FALSE, <<>>)
  ELSE IF c \in {43, 45, 33} /\ (OpAt(t, i) = 0 \/ Len(Ops[OpAt(t, i)].b) = 1) THEN
    LET u == UnaryAt(t, SkipSp(t, i + 1)) IN
    IF u.ok THEN Yes(u.i, [k |-> "un", o |-> CASE c = 43 -> "+" [] c = 45 -> "-" [] c = 33 -> "!", a |-> u.a]) ELSE u
  ELSE IF c = 40 THEN
    LET e == ExprAt(t, i + 1)
        j == SkipSp(t, e.i) IN
    IF e.ok /\ At(t, j) = 41 THEN Yes(j + 1, [k |-> "grp", a |-> e.a]) ELSE No(i)
  ELSE No(i)

\* an element begins at i
ElemStart(t, i) == TokAt(t, i) > 0 \/ IsQuote(At(t, i)) \/ At(t, i) \in {91, 123, 40}
PathFrom(t, i, dot, p) ==
  LET c == At(t, i)
      e == CASE IsQuote(c) -> LET q == QuotedFrom(t, i + 1, c, FALSE, <<>>) IN
                              IF q.ok THEN Yes(q.i, [k |-> "name", b |-> q.a.b]) ELSE q
             [] TokAt(t, i) > 0 -> Yes(TokEnd(t, i), [k |-> "name", b |-> SubSeq(t, i, TokEnd(t, i) - 1)])
             [] c = 91 -> LET x == ExprAt(t, i + 1)
                              j == SkipSp(t, x.i) IN
                          IF x.ok /\ At(t, j) = 93 THEN Yes(j + 1, [k |-> "idx", e |-> x.a]) ELSE No(i)
             [] c = 123 -> LET j0 == SkipSp(t, i + 1) IN
                           IF At(t, j0) = 125 THEN Yes(j0 + 1, [k |-> "all"])
                           ELSE LET x == ExprAt(t, i + 1)
                                    j == SkipSp(t, x.i) IN
                                IF x.ok /\ At(t, j) = 125 THEN Yes(j + 1, [k |-> "sel", e |-> x.a]) ELSE No(i)
             [] c = 40 -> LET x == ArgsFrom(t, i + 1, <<>>) IN
                          IF ~x.ok THEN x
                          ELSE IF ~dot THEN Yes(x.i, [k |-> "args", l |-> x.a])
                          ELSE IF x.a = <<>> THEN No(i) ELSE Yes(x.i, [k |-> "grp", e |-> x.a[1]])
             [] OTHER -> No(i) IN
  IF ~e.ok THEN No(i)
  ELSE LET p2 == Append(p, e.a)
           n == At(t, e.i) IN
       IF n = 46 /\ ElemStart(t, e.i + 1) THEN PathFrom(t, e.i + 1, TRUE, p2)
       ELSE IF n \in {91, 123, 40} THEN PathFrom(t, e.i, FALSE, p2)
       ELSE Yes(e.i, [k |-> "path", p |-> p2])

\* arguments, up to the closing parenthesis
ArgsFrom(t, i0, l) ==
  LET i == SkipWs(t, i0) IN
  IF At(t, i) = 41 /\ l = <<>> THEN Yes(i + 1, l)
  ELSE LET e == ExprAt(t, i)
           j == SkipWs(t, e.i) IN
       IF ~e.ok THEN No(i)
       ELSE IF At(t, j) = 41 THEN Yes(j + 1, Append(l, e.a))
       ELSE IF At(t, j) = COMMA THEN ArgsFrom(t, j + 1, Append(l, e.a))
       ELSE No(j)

\* Whole texts
Expr(t) == LET e == ExprAt(t, 1) IN IF e.ok /\ e.i > Len(t) THEN e ELSE No(1)
PathOf(t) == LET e == PathFrom(t, 1, TRUE, <<>>) IN IF e.ok /\ e.i > Len(t) THEN e ELSE No(1)

(***************************************************************************)
(* Templates: first the sequence of pieces, then their nesting.            *)
(* A block is a sequence of [k |-> "text" | "var" | "do" | "break" | "if"  *)
(* (c conditions, b blocks, e else block) | "for" (v name, l list, b body)] *)
(***************************************************************************)
Word(b) == CASE b = <<105,102>> -> "if" [] b = <<101,108,115,101,105,102>> -> "elseif" [] b = <<101,108,115,101>> -> "else"
             [] b = <<101,110,100>> -> "end" [] b = <<102,111,114>> -> "for" [] b = <<98,114,101,97,107>> -> "break" [] OTHER -> "none"
SimpleName(a) == a.k = "path" /\ Len(a.p) = 1 /\ a.p[1].k = "name"
Piece(p) ==
  LET w == IF p[1].k = "name" THEN Word(p[1].b) ELSE "none"
      args == Len(p) = 2 /\ p[2].k = "args" IN
  CASE w = "none" -> [k |-> "var", p |-> p]
    [] w \in {"else", "end", "break"} -> IF Len(p) = 1 THEN [k |-> w] ELSE [k |-> "bad"]
    [] w \in {"if", "elseif"} -> IF args /\ Len(p[2].l) = 1 THEN [k |-> w, a |-> p[2].l[1]] ELSE [k |-> "bad"]
    [] w = "for" -> IF args /\ Len(p[2].l) = 2 /\ SimpleName(p[2].l[1]) THEN [k |-> w, v |-> p[2].l[1].p[1].b, l |-> p[2].l[2]] ELSE [k |-> "bad"]

RECURSIVE TextEnd(_, _)
TextEnd(t, i) == IF i > Len(t) \/ t[i] = 36 THEN i ELSE TextEnd(t, i + 1)
\* the piece at i, as [ok, i, a]
PieceAt(t, i) ==
  IF t[i] # 36 THEN Yes(TextEnd(t, i), [k |-> "text", b |-> SubSeq(t, i, TextEnd(t, i) - 1)])
  ELSE CASE At(t, i + 1) = BSL -> Yes(i + 2, [k |-> "text", b |-> <<36>>])
         [] At(t, i + 1) = 40 -> LET e == ExprAt(t, i + 2)
                                     j == SkipSp(t, e.i) IN
                                 IF e.ok /\ At(t, j) = 41 THEN Yes(j + 1, [k |-> "do", a |-> e.a]) ELSE No(i)
         [] At(t, i + 1) = 123 -> LET e == PathFrom(t, SkipSp(t, i + 2), TRUE, <<>>)
                                      j == SkipSp(t, e.i) IN
                                  IF e.ok /\ At(t, j) = 125 THEN Yes(j + 1, Piece(e.a.p)) ELSE No(i)
         [] OTHER -> LET e == PathFrom(t, i + 1, TRUE, <<>>) IN
                     IF e.ok THEN Yes(e.i, Piece(e.a.p)) ELSE No(i)
RECURSIVE Pieces(_, _, _)
Pieces(t, i, l) == IF i > Len(t) THEN Yes(i, l)
                   ELSE LET p == PieceAt(t, i) IN
                        IF p.ok /\ p.a.k # "bad" THEN Pieces(t, p.i, Append(l, p.a)) ELSE No(i)

RECURSIVE Block(_, _, _), IfFrom(_, _, _, _)
\* the pieces from i on up to one that ends a block
Block(l, i, b) ==
  IF i > Len(l) \/ l[i].k \in {"end", "else", "elseif"} THEN Yes(i, b)
  ELSE CASE l[i].k = "if" -> LET x == IfFrom(l, i, <<>>, <<>>) IN IF x.ok THEN Block(l, x.i, Append(b, x.a)) ELSE x
         [] l[i].k = "for" -> LET x == Block(l, i + 1, <<>>) IN
                              IF x.ok /\ x.i <= Len(l) /\ l[x.i].k = "end"
                              THEN Block(l, x.i + 1, Append(b, [k |-> "for", v |-> l[i].v, l |-> l[i].l, b |-> x.a])) ELSE No(i)
         [] OTHER -> Block(l, i + 1, Append(b, l[i]))
\* l[i] is an if or elseif
IfFrom(l, i, c, bs) ==
  LET x == Block(l, i + 1, <<>>)
      c2 == Append(c, l[i].a)
      b2 == Append(bs, x.a) IN
  IF ~x.ok \/ x.i > Len(l) THEN No(i)
  ELSE CASE l[x.i].k = "elseif" -> IfFrom(l, x.i, c2, b2)
         [] l[x.i].k = "end" -> Yes(x.i + 1, [k |-> "if", c |-> c2, b |-> b2, e |-> <<>>])
         [] OTHER -> LET y == Block(l, x.i + 1, <<>>) IN
                     IF y.ok /\ y.i <= Len(l) /\ l[y.i].k = "end"
                     THEN Yes(y.i + 1, [k |-> "if", c |-> c2, b |-> b2, e |-> y.a]) ELSE No(i)

Template(t) == LET l == Pieces(t, 1, <<>>) IN
               IF ~l.ok THEN l
               ELSE LET b == Block(l.a, 1, <<>>) IN IF b.ok /\ b.i > Len(l.a) THEN b ELSE No(1)
=============================================================================

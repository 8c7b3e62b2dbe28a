------------------------------ MODULE OgdlText ------------------------------
(***************************************************************************)
(* The OGDL text format as a state machine that consumes one byte at a     *)
(* time (a pseudo byte EOS at the end).  The state records where in a line *)
(* it is (m), the indentations of the open levels (st), the token being    *)
(* collected (b) and the nodes found so far (ev), each with its level, the *)
(* kind of scalar it was ("p" plain, "q" quoted, "b" block) and its bytes. *)
(*                                                                         *)
(* Control characters other than tab, LF and CR end the stream for the     *)
(* implementation in a way that depends on nesting; the format does not    *)
(* define them, and inputs with them are outside the domain of this        *)
(* module (see C20 for what is required of them).                          *)
(***************************************************************************)
EXTENDS OgdlBytes

TextInit == [ m   |-> "bol",     \* mode
              st  |-> <<>>,      \* indentation stack
              ns  |-> 0,         \* spaces seen (indentation, block, quoted continuation)
              nt  |-> 0,         \* tabs seen
              dep |-> 0,         \* tokens already seen on this line
              q   |-> 0,         \* the quote character
              esc |-> FALSE,     \* the byte before was a backslash, in a quoted string
              b   |-> <<>>,      \* bytes of the token being read
              ev  |-> <<>> ]     \* nodes found

Level(s) == Len(s.st) - 1
Top(s)   == s.st[Len(s.st)]

Emit(s, kind, bytes) ==
  [s EXCEPT !.ev = Append(@, [l |-> Level(s) + s.dep, k |-> kind, b |-> bytes]), !.b = <<>>]

Bol(s) == [s EXCEPT !.m = "bol", !.ns = 0, !.nt = 0, !.dep = 0, !.b = <<>>]
Done(s) == [s EXCEPT !.m = "done"]

\* The indentation stack at a line of indentation n: <<>> if the line is less
\* indented than the first one, which ends the text.
RECURSIVE Reindent(_, _)
Reindent(st, n) ==
  IF st = <<>> THEN <<>>
  ELSE IF n < st[Len(st)] THEN Reindent(SubSeq(st, 1, Len(st) - 1), n)
  ELSE IF n > st[Len(st)] THEN Append(st, n)
  ELSE st

\* c is the first byte of a token, or what comes in place of one
Tok(s, c) ==
  CASE c = EOS   -> Done(s)
    [] c = LF    -> Bol(s)
    [] c = CR    -> Bol(s)
    [] c = HASH  -> [s EXCEPT !.m = "hash"]
    [] c = BSL   -> [s EXCEPT !.m = "bs"]
    [] IsQuote(c) -> [s EXCEPT !.m = "q", !.q = c, !.esc = FALSE, !.b = <<>>]
    [] IsSpace(c) -> [s EXCEPT !.m = "gap"]
    [] OTHER     -> [s EXCEPT !.m = "str", !.b = <<c>>]

\* c follows a token
After(s, c) ==
  CASE c = EOS -> Done(s)
    [] IsBreak(c) -> Bol(s)
    [] IsSpace(c) -> [s EXCEPT !.m = "gap", !.dep = @ + 1]
    [] OTHER -> Tok([s EXCEPT !.dep = @ + 1], c)

Str(s, c) ==
  IF c # EOS /\ IsText(c) THEN [s EXCEPT !.m = "str", !.b = Append(@, c)]
  ELSE IF s.b = <<>> THEN After(s, c)
  ELSE After(Emit(s, "p", s.b), c)

\* c is the first byte of a line that is not space, a break or a comment
Content(s, c) ==
  LET n == s.ns + s.nt IN
  IF s.st = <<>> /\ s.ns > 0 /\ s.nt > 0 THEN Done(s)        \* mixed indentation
  ELSE LET st2 == IF s.st = <<>> THEN <<n>> ELSE Reindent(s.st, n) IN
       IF st2 = <<>> THEN Done(s)
       ELSE LET s2 == [s EXCEPT !.st = st2, !.dep = 0] IN
            IF c = COMMA THEN [s2 EXCEPT !.m = "comma"] ELSE Tok(s2, c)

LineStart(s, c) ==
  CASE c = SP  -> [s EXCEPT !.ns = @ + 1]
    [] c = TAB -> [s EXCEPT !.nt = @ + 1]
    [] c = EOS -> Done(s)
    [] IsBreak(c) -> Bol(s)
    [] c = HASH -> [s EXCEPT !.m = "bolhash"]
    [] OTHER -> Content(s, c)

\* Inside a quoted string
Quoted(s, c) ==
  IF c = EOS THEN Done(s)                                    \* unterminated: no token
  ELSE IF c = s.q /\ (~s.esc \/ c = BQ) THEN [Emit(s, "q", s.b) EXCEPT !.m = "aq"]
  ELSE IF c = BSL THEN [s EXCEPT !.esc = TRUE]
  ELSE LET b2 == (IF s.esc /\ c # SQ /\ c # DQ THEN Append(s.b, BSL) ELSE s.b) \o <<c>>
           s2 == [s EXCEPT !.b = b2, !.esc = FALSE] IN
       IF c = LF /\ Top(s) > 0 THEN [s2 EXCEPT !.m = "qs", !.ns = 0, !.nt = 0] ELSE s2

\* Indentation of a continuation line of a quoted string. It is removed up to the
\* indentation of the line of the string; a continuation with less than that ends
\* the string, and one with tabs and spaces mixed is not a string.
QuotedSpace(s, c) ==
  IF c # EOS /\ IsSpace(c)
  THEN LET s2 == IF c = SP THEN [s EXCEPT !.ns = @ + 1] ELSE [s EXCEPT !.nt = @ + 1] IN
       IF s2.ns = Top(s) \/ s2.nt = Top(s)
       THEN IF s2.ns > 0 /\ s2.nt > 0 THEN [s2 EXCEPT !.m = "str", !.b = <<>>] ELSE [s2 EXCEPT !.m = "q"]
       ELSE s2
  ELSE IF s.ns > 0 /\ s.nt > 0 THEN Str([s EXCEPT !.b = <<>>], c)
  ELSE After(Emit(s, "q", s.b), c)

\* Indentation of a line of a block; the block ends at a line that is not deeper
\* than the line in which it began.
BlockSpace(s, c) ==
  CASE c = SP  -> [s EXCEPT !.ns = @ + 1]
    [] c = TAB -> [s EXCEPT !.nt = @ + 1]
    [] OTHER ->
       IF (s.ns > 0 /\ s.nt > 0) \/ s.ns + s.nt <= Top(s)
       THEN LET s2 == [Emit(s, "b", TrimRight(s.b, LF)) EXCEPT !.m = "bol", !.dep = 0] IN LineStart(s2, c)
       ELSE CASE c = EOS -> Done(Emit(s, "b", TrimRight(s.b, LF)))
              [] c = LF  -> [s EXCEPT !.b = Append(@, LF), !.ns = 0, !.nt = 0]
              [] c = CR  -> [s EXCEPT !.m = "bl"]
              [] OTHER   -> [s EXCEPT !.m = "bl", !.b = Append(@, c)]

BlockLine(s, c) ==
  CASE c = EOS -> Done(Emit(s, "b", TrimRight(s.b, LF)))
    [] c = LF  -> [s EXCEPT !.m = "bls", !.b = Append(@, LF), !.ns = 0, !.nt = 0]
    [] c = CR  -> s
    [] OTHER   -> [s EXCEPT !.b = Append(@, c)]

BlockStart(s) == [s EXCEPT !.m = "bls", !.b = <<>>, !.ns = 0, !.nt = 0]

\* One byte
TextStep(s, c) ==
  CASE s.m = "done" -> s
    [] s.m = "bol"  -> LineStart(s, c)
    [] s.m = "bolhash" -> IF c # EOS /\ IsSpace(c) THEN [s EXCEPT !.m = "comment"]
                          ELSE LET s2 == Content(s, HASH) IN
                               IF s2.m = "done" THEN s2 ELSE Str([s2 EXCEPT !.b = <<HASH>>], c)
    [] s.m = "comment" -> IF c = EOS THEN Done(s) ELSE IF IsBreak(c) THEN Bol(s) ELSE s
    [] s.m = "comma" -> IF c # EOS /\ IsSpace(c) THEN s ELSE Tok(s, c)
    [] s.m = "gap"  -> IF c # EOS /\ IsSpace(c) THEN s ELSE Tok(s, c)
    [] s.m = "hash" -> IF c # EOS /\ IsSpace(c) THEN [s EXCEPT !.m = "comment"]
                       ELSE Str([s EXCEPT !.b = <<HASH>>], c)
    [] s.m = "bs"   -> IF c = LF THEN BlockStart(s)
                       ELSE IF c = CR THEN [s EXCEPT !.m = "bscr"]
                       ELSE Str([s EXCEPT !.b = <<BSL>>], c)
    [] s.m = "bscr" -> IF c = LF THEN BlockStart(s) ELSE BlockSpace(BlockStart(s), c)
    [] s.m = "bls"  -> BlockSpace(s, c)
    [] s.m = "bl"   -> BlockLine(s, c)
    [] s.m = "str"  -> Str(s, c)
    [] s.m = "aq"   -> After(s, c)
    [] s.m = "q"    -> Quoted(s, c)
    [] s.m = "qs"   -> QuotedSpace(s, c)

\* The nodes of a text, in the order of appearance
Events(text) == TextStep(FoldLeft(TextStep, TextInit, text), EOS).ev

(***************************************************************************)
(* Properties of the state machine, checked exhaustively over short texts  *)
(* by MC_Text.                                                             *)
(***************************************************************************)
\* No node is ever more than one level below the one before it: each has a parent
NoOrphans(s) ==
  /\ (s.ev # <<>> => s.ev[1].l = 0)
  /\ \A i \in 1 .. Len(s.ev) - 1 : s.ev[i + 1].l <= s.ev[i].l + 1 /\ s.ev[i + 1].l >= 0
\* Open levels are strictly nested
StackOrdered(s) == \A i \in 1 .. Len(s.st) - 1 : s.st[i] < s.st[i + 1]
\* Nodes once found are never changed
Monotone(s, t) == IsPrefix(s.ev, t.ev)
\* Plain tokens are not empty and have no spaces
PlainTokens(s) == \A i \in DOMAIN s.ev : s.ev[i].k = "p" => s.ev[i].b # <<>> /\ AllBytes(s.ev[i].b, IsText)
=============================================================================

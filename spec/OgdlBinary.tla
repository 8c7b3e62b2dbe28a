---------------------------- MODULE OgdlBinary ----------------------------
(***************************************************************************)
(* The OGDL binary format:                                                 *)
(*                                                                         *)
(*   ogdl-binary ::= header ( level node )* 0x00                           *)
(*   header      ::= 0x01 'G' 0x00                                         *)
(*   node        ::= text 0x00 | 0x01 ( length data )* 0x00                *)
(*   level, length: variable integers of 1 to 4 bytes                      *)
(*                                                                         *)
(* as an encoder and as a state machine that decodes one byte at a time.   *)
(***************************************************************************)
EXTENDS OgdlTypes, OgdlTree

VarInt(n) ==
  IF n < 128 THEN <<n>>
  ELSE IF n < 16384 THEN <<128 + n \div 256, n % 256>>
  ELSE IF n < 2097152 THEN <<192 + n \div 65536, (n \div 256) % 256, n % 256>>
  ELSE <<224 + n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
MaxVarInt == 268435455

\* A content that a text node cannot carry
AsBinary(b) == b[1] = 1 \/ HasByte(b, 0)
EncNode(level, b) ==
  VarInt(level) \o (IF AsBinary(b) THEN <<1>> \o VarInt(Len(b)) \o b \o <<0>> ELSE b \o <<0>>)

\* nodes: flat form with the content of each as bytes, raw[i]. Nodes without content are
\* not written: their subnodes take their place.
Levels(nodes, raw) ==       \* level of each node in the stream (1..), and what comes below
  FoldLeft(LAMBDA acc, i :
             LET n == acc.up[nodes[i].l + 1] IN
             [up |-> SubSeq(acc.up, 1, nodes[i].l + 1) \o <<IF raw[i] = <<>> THEN n ELSE n + 1>>,
              lv |-> Append(acc.lv, n)],
           [up |-> <<1>>, lv |-> <<>>], [i \in 1 .. Len(nodes) |-> i]).lv

Written(raw) == SelectSeq([i \in 1 .. Len(raw) |-> i], LAMBDA i : raw[i] # <<>>)
Header == <<1, 71, 0>>
Enc(nodes, raw) ==
  LET lv == Levels(nodes, raw) IN
  Header \o FlatCat([x \in 1 .. Len(Written(raw)) |-> EncNode(lv[Written(raw)[x]], raw[Written(raw)[x]])]) \o <<0>>

(***************************************************************************)
(* The decoder: mode m, the variable integer being read (v, with k bytes   *)
(* to come), the node being read (l, b), and the nodes found.              *)
(***************************************************************************)
BinInit == [m |-> "h1", v |-> 0, k |-> 0, l |-> 0, b |-> <<>>, ev |-> <<>>]

Put(s, kind) == [s EXCEPT !.ev = Append(@, [l |-> s.l - 1, v |-> IF kind = "s" THEN Str_(s.b) ELSE Byt_(s.b)]), !.b = <<>>, !.m = "level"]

\* a whole integer was read
GotLevel(s, n) == IF n = 0 THEN [s EXCEPT !.m = "done"] ELSE [s EXCEPT !.m = "first", !.l = n, !.b = <<>>]
GotLength(s, n) == IF n = 0 THEN Put(s, "b") ELSE [s EXCEPT !.m = "data", !.k = n]
Got(s, n, len) == IF len THEN GotLength(s, n) ELSE GotLevel(s, n)

StartInt(s, c, len) ==
  LET more(k, v) == [s EXCEPT !.m = IF len THEN "length2" ELSE "level2", !.k = k, !.v = v] IN
  IF c < 128 THEN Got(s, c, len)
  ELSE IF c < 192 THEN more(1, c - 128)
  ELSE IF c < 224 THEN more(2, c - 192)
  ELSE IF c < 240 THEN more(3, c - 224)
  ELSE [s EXCEPT !.m = "bad"]
NextInt(s, c, len) ==
  IF s.k = 1 THEN Got(s, s.v * 256 + c, len)
  ELSE [s EXCEPT !.k = @ - 1, !.v = @ * 256 + c]

BinStep(s, c) ==
  CASE s.m = "h1" -> [s EXCEPT !.m = IF c = 1 THEN "h2" ELSE "bad"]
    [] s.m = "h2" -> [s EXCEPT !.m = IF c = 71 THEN "h3" ELSE "bad"]
    [] s.m = "h3" -> [s EXCEPT !.m = IF c = 0 THEN "level" ELSE "bad"]
    [] s.m = "level"   -> StartInt(s, c, FALSE)
    [] s.m = "level2"  -> NextInt(s, c, FALSE)
    [] s.m = "first"   -> IF c = 1 THEN [s EXCEPT !.m = "length"]
                          ELSE IF c = 0 THEN Put(s, "s")
                          ELSE [s EXCEPT !.m = "text", !.b = <<c>>]
    [] s.m = "text"    -> IF c = 0 THEN Put(s, "s") ELSE [s EXCEPT !.b = Append(@, c)]
    [] s.m = "length"  -> StartInt(s, c, TRUE)
    [] s.m = "length2" -> NextInt(s, c, TRUE)
    [] s.m = "data"    -> [s EXCEPT !.b = Append(@, c), !.k = @ - 1, !.m = IF s.k = 1 THEN "length" ELSE "data"]
    [] OTHER -> s                                   \* done, bad: what follows does not matter

Decode(bytes) == FoldLeft(BinStep, BinInit, bytes)
Complete(s) == s.m = "done"
DecodedTree(s) == Place(s.ev)

\* The object that begins at position p (from 0) of these bytes: the state of the
\* machine after it, and its length n (0 if it is not complete)
ParseAt(bytes, p) ==
  FoldLeft(LAMBDA a, c : IF a.s.m = "done" \/ a.s.m = "bad" THEN a ELSE [s |-> BinStep(a.s, c), n |-> a.n + 1],
           [s |-> BinInit, n |-> 0], From(bytes, p + 1))
ObjLen(bytes, p) == LET a == ParseAt(bytes, p) IN IF a.s.m = "done" THEN a.n ELSE 0
=============================================================================

------------------------------ MODULE MC_Binary ------------------------------
(***************************************************************************)
(* MC_BinTree.cfg: every small tree over awkward contents is encoded and   *)
(* decoded, and no proper prefix of its encoding is complete (C04, C05).   *)
(* MC_BinCov.cfg: the decoder is fed with all bytes of a small alphabet;   *)
(* one stream for each transition of its abstract state graph is printed   *)
(* as a case for the implementation.                                       *)
(***************************************************************************)
EXTENDS OgdlBinary, TLC, Json
CONSTANTS MaxNodes, MaxLevel, MaxLen
Contents == { <<>>, <<97>>, <<97, 98>>, <<0>>, <<1>>, <<1, 71, 0>>, <<97, 0>>, <<0, 0>>, <<255>>, <<2, 1>>, <<71>> }
Alphabet == {0, 1, 2, 3, 71, 97, 127, 128, 192, 224, 240, 255}

VARIABLES nodes, bytes, s
vars == <<nodes, bytes, s>>

\* ---------------------------------------------------------------- trees
InitTree == nodes = <<>> /\ bytes = <<>> /\ s = BinInit
AddNode(l, b) == /\ Len(nodes) < MaxNodes
                 /\ IF nodes = <<>> THEN l = 0 ELSE l <= nodes[Len(nodes)].l + 1
                 /\ nodes' = Append(nodes, [l |-> l, v |-> Str_(b)])
                 /\ UNCHANGED <<bytes, s>>
NextTree == \E l \in 0 .. MaxLevel, b \in Contents : AddNode(l, b)
SpecTree == InitTree /\ [][NextTree]_vars

Raw == [i \in DOMAIN nodes |-> nodes[i].v.b]
Sent == LET lv == Levels(nodes, Raw) IN
        [x \in 1 .. Len(Written(Raw)) |-> LET i == Written(Raw)[x] IN
           [l |-> lv[i] - 1, v |-> IF AsBinary(Raw[i]) THEN Byt_(Raw[i]) ELSE Str_(Raw[i])]]
E == Enc(nodes, Raw)
RoundTrip == Complete(Decode(E)) /\ DecodedTree(Decode(E)) = Sent /\ ObjLen(E, 0) = Len(E)
CutsIncomplete == \A n \in 0 .. Len(E) - 1 : ~Complete(Decode(SubSeq(E, 1, n)))
\* objects that follow do not change what is read
Followed == DecodedTree(Decode(E \o E)) = Sent /\ ObjLen(E \o <<1>>, 0) = Len(E)
ExportTree == PrintT("CASE " \o ToJson([tree |-> nodes]))

\* --------------------------------------------------------------- decoder
InitDec == nodes = <<>> /\ bytes = <<>> /\ s = BinInit
Feed(c) == /\ Len(bytes) < MaxLen /\ s.m \notin {"done", "bad"}
           /\ bytes' = Append(bytes, c) /\ s' = BinStep(s, c) /\ UNCHANGED nodes
NextDec == \E c \in Alphabet : Feed(c)
SpecDec == InitDec /\ [][NextDec]_vars
Bound == s.l <= 300 /\ s.k <= 300 /\ s.v <= 3
Cap(n, k) == IF n > k THEN k ELSE n
Abs == <<s.m, Cap(s.v, 3), Cap(s.k, 3), Cap(s.l, 3), Cap(Len(s.b), 2), Cap(Len(s.ev), 2), IF s.ev = <<>> THEN 0 ELSE Cap(s.ev[Len(s.ev)].l, 3)>>
Tails == { <<>>, <<0>>, <<97, 0, 0>>, <<0, 0, 0, 0>>, <<97, 98, 0, 2, 99, 0, 0>> }
Cover == s'.l <= 300 => \A t \in Tails : PrintT("CASE " \o ToJson([data |-> bytes' \o t]))
Never == [][s.m \in {"done", "bad"} => s' = s]_vars
NoEmptyPrefix == bytes = <<>> => ~Complete(s)
=============================================================================

------------------------------- MODULE MC_Emit -------------------------------
(***************************************************************************)
(* All small trees over a set of awkward values: the text form of each     *)
(* that is representable reads back as the same tree, and the subnodes of a    *)
(* node without content in its place.                                     *)
(***************************************************************************)
EXTENDS OgdlEmit, TLC, Json
CONSTANTS MaxNodes, MaxLevel
Values == { <<>>, <<97>>, <<97, SP, 98>>, <<LF>>, <<97, LF, 98>>, <<97, LF, SP, SP, 98>>, <<97, LF, TAB>>, <<DQ>>, <<97, DQ, 98>>,
            <<SQ, 97>>, <<HASH>>, <<HASH, SP>>, <<COMMA>>, <<COMMA, 97>>, <<BSL>>, <<BSL, 97>>, <<BSL, 97, SP>>, <<BSL, LF, 97>>, <<40, 41>>,
            <<SP>>, <<LF, LF, 97>>, <<97, LF>>, <<DQ, DQ>>, <<97, BQ>>, <<BQ>>, <<HASH, 97>>, <<195, 169, SP>> }
VARIABLE nodes
Init == nodes = <<>>
AddNode(l, v) == /\ Len(nodes) < MaxNodes
                 /\ IF nodes = <<>> THEN l = 0 ELSE l <= nodes[Len(nodes)].l + 1
                 /\ nodes' = Append(nodes, [l |-> l, v |-> Str_(v)])
                 /\ Representable(Solid(nodes'))
Next == \E l \in 0 .. MaxLevel, v \in Values : AddNode(l, v)
Spec == Init /\ [][Next]_nodes

RoundTrip == Means(EmitText(nodes), Solid(nodes))
Stable == LET t == EmitText(nodes)
              ev == Events(t)
          IN t = EmitText([i \in DOMAIN ev |-> [l |-> ev[i].l, v |-> Str_(ev[i].b)]])
Export == PrintT("CASE " \o ToJson([tree |-> nodes, root |-> <<95>>]))
=============================================================================

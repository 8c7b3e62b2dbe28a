------------------------------ MODULE MC_Scale ------------------------------
(***************************************************************************)
(* Texts that repeat one or two pieces very often, and deeply nested ones. *)
(* On the specification, with few repetitions: the readers end.            *)
(* Exported with many: the work must not grow with the square of them.     *)
(***************************************************************************)
EXTENDS Corpus
CONSTANTS Flat, Deep, Every

\* opening, inner and closing piece
Nested == << [l |-> "text", a |-> <<97,40>>, b |-> <<98>>, c |-> <<41>>],
            [l |-> "text", a |-> <<40>>, b |-> <<98>>, c |-> <<41>>],
            [l |-> "text", a |-> <<123>>, b |-> <<>>, c |-> <<125>>],
            [l |-> "path", a |-> <<97,40>>, b |-> <<98>>, c |-> <<41>>],
            [l |-> "path", a |-> <<97,46,98,91>>, b |-> <<49>>, c |-> <<93>>],
            [l |-> "path", a |-> <<123>>, b |-> <<49>>, c |-> <<125>>],
            [l |-> "path", a |-> <<97,123>>, b |-> <<>>, c |-> <<125>>],
            [l |-> "path", a |-> <<40>>, b |-> <<97>>, c |-> <<41>>],
            [l |-> "expr", a |-> <<40>>, b |-> <<49>>, c |-> <<41>>],
            [l |-> "expr", a |-> <<97,91>>, b |-> <<49>>, c |-> <<93>>],
            [l |-> "expr", a |-> <<102,40>>, b |-> <<49>>, c |-> <<41>>],
            [l |-> "expr", a |-> <<45>>, b |-> <<49>>, c |-> <<>>],
            [l |-> "expr", a |-> <<33>>, b |-> <<49>>, c |-> <<>>],
            [l |-> "expr", a |-> <<45,40>>, b |-> <<49>>, c |-> <<41>>],
            [l |-> "expr", a |-> <<40,49,43>>, b |-> <<50>>, c |-> <<41>>],
            [l |-> "expr", a |-> <<40,97,61>>, b |-> <<50>>, c |-> <<41>>],
            [l |-> "expr", a |-> <<97,46,40>>, b |-> <<98>>, c |-> <<41>>],
            [l |-> "nested", a |-> <<36,105,102,40,49,41>>, b |-> <<120>>, c |-> <<36,101,110,100,32>>],
            [l |-> "nested", a |-> <<36,102,111,114,40,105,44,108,41>>, b |-> <<120>>, c |-> <<36,101,110,100,32>>],
            [l |-> "nested", a |-> <<36,105,102,40,49,41>>, b |-> <<120>>, c |-> <<>>],
            [l |-> "nested", a |-> <<36,105,102,40,48,41,36,101,108,115,101,32>>, b |-> <<120>>, c |-> <<36,101,110,100,32>>],
            [l |-> "nested", a |-> <<36,40>>, b |-> <<49>>, c |-> <<41>>],
            [l |-> "nested", a |-> <<36,97,40>>, b |-> <<49>>, c |-> <<41>>],
            [l |-> "nested", a |-> <<36,123>>, b |-> <<97>>, c |-> <<125>>],
            [l |-> "json", a |-> <<91>>, b |-> <<49>>, c |-> <<93>>],
            [l |-> "json", a |-> <<123,34,97,34,58>>, b |-> <<49>>, c |-> <<125>>],
            [l |-> "json", a |-> <<91>>, b |-> <<>>, c |-> <<>>],
            [l |-> "xml", a |-> <<60,97,62>>, b |-> <<120>>, c |-> <<60,47,97,62>>],
            [l |-> "xml", a |-> <<60,97,62>>, b |-> <<>>, c |-> <<>>],
            [l |-> "xml", a |-> <<60,33,45,45,32>>, b |-> <<>>, c |-> <<45,45,62>>],
            [l |-> "find", a |-> <<40>>, b |-> <<97>>, c |-> <<41>>],
            [l |-> "lexer", a |-> <<91>>, b |-> <<49>>, c |-> <<93>>],
            [l |-> "lexer", a |-> <<40>>, b |-> <<49>>, c |-> <<41>>] >>
\* loops within loops are as long as they say: these templates are only read
Loops == {i \in DOMAIN Toks(5) : IsPrefix(<<36,102,111,114,40>>, Toks(5)[i])}
VARIABLES g, x, y
vars == <<g, x, y>>
Init == g \in DOMAIN Langs \cup {0} /\ x = 0 /\ y = 0
Next == /\ x = 0
        /\ IF g = 0 THEN x' \in DOMAIN Nested /\ y' = 0 ELSE x' \in DOMAIN Toks(g) /\ y' \in {0} \cup DOMAIN Toks(g)
        /\ UNCHANGED g
Spec == Init /\ [][Next]_vars
\* pieces that open more than they close nest (the text of a tree grows with the square of its depth)
Opening(t) == Len(SelectSeq(t, LAMBDA b : b \in {40, 91, 123})) > Len(SelectSeq(t, LAMBDA b : b \in {41, 93, 125}))
Case(l, a, b, c, n) == PrintT("CASE " \o ToJson([lang |-> l, root |-> Roots[2], a |-> a, b |-> b, c |-> c, n |-> n]))
Hash == (31 * g + 7 * x + 3 * y) % Every
Export == x # 0 => IF g = 0 THEN Case(Nested[x].l, Nested[x].a, Nested[x].b, Nested[x].c, Deep)
                   ELSE (y = 0 \/ Hash = 0) => Case(IF LangOf(g) = "tmpl" /\ ({x, y} \cap Loops # {}) THEN "nested" ELSE LangOf(g), Toks(g)[x] \o (IF y = 0 THEN <<>> ELSE Toks(g)[y]), <<>>, <<>>,
                                                           IF y # 0 /\ LangOf(g) \in {"path", "expr", "tmpl"} /\ Opening(Toks(g)[x] \o Toks(g)[y]) THEN Deep ELSE Flat)
=============================================================================

------------------------------ MODULE MC_Total ------------------------------
(***************************************************************************)
(* Every text of up to MaxLen pieces, of every language, whether or not it *)
(* means something.  Checked: the readers of the specification end within  *)
(* every text; what they take for an expression, a path or a template has  *)
(* a result, or is said to have none, and leaves the context a tree.       *)
(* Every text is exported, to be given to all that takes such texts: each  *)
(* state stands for those that its text and More pieces make.              *)
(***************************************************************************)
EXTENDS Corpus
CONSTANTS MaxLen, More, Every, Full     \* texts of at most Full pieces in all the contexts; of longer ones, one in Every of the stems, in one

J == INSTANCE OgdlJson
X == INSTANCE OgdlXml
T == INSTANCE OgdlText
B == INSTANCE OgdlBinary

VARIABLES g, ts
vars == <<g, ts>>
Stem == FlatCat([i \in DOMAIN ts |-> Toks(g)[ts[i]]])
Init == g \in DOMAIN Langs /\ ts = <<>>
Next == /\ Len(ts) + More < MaxLen
        /\ \E x \in DOMAIN Toks(g) : ts' = Append(ts, x)
        /\ UNCHANGED g
Spec == Init /\ [][Next]_vars

Within(t, i) == i \in 0 .. Len(t) + 2
\* no node is below itself, and every node that is referred to exists
Sound(h) == \A x \in DOMAIN h.n : /\ \A y \in Range(Out(h, x)) : y \in DOMAIN h.n
                                  /\ \A y \in Range(Out(h, x)) : ~Contains(Reach(h, y, <<>>), x)
Start(c) == Plant([n |-> <<>>, r |-> <<>>, calls |-> <<>>], S(<<95>>), Roots[c])
Goes_(r) == r.u # "" \/ Sound(r.h)
Reads(t) ==
  CASE LangOf(g) \in {"text", "schema"} -> LET s == FoldLeft(T!TextStep, T!TextInit, t) IN T!TextStep(s, EOS).m = "done"
    [] LangOf(g) = "path" -> LET e == PathFrom(t, 1, TRUE, <<>>) IN
                             Within(t, e.i) /\ (PathOf(t).ok /\ KnownText(t) => \A c \in DOMAIN Roots : /\ Goes_(WalkFrom(Start(c).h, 1, PathOf(t).a.p, "get"))
                                                                                                        /\ Goes_(SetPath(Start(c).h, 1, PathOf(t).a.p, StrV(<<118>>))))
    [] LangOf(g) = "expr" -> LET e == ExprAt(t, 1) IN
                             Within(t, e.i) /\ (Expr(t).ok /\ KnownText(t) => \A c \in DOMAIN Roots : Goes_(Eval(Start(c).h, 1, Expr(t).a, "eval")))
    [] LangOf(g) = "tmpl" -> LET e == Pieces(t, 1, <<>>) IN
                             Within(t, e.i) /\ (Template(t).ok /\ KnownText(t) => \A c \in DOMAIN Roots : Goes_(Render(Start(c).h, 1, Template(t).a)))
    [] LangOf(g) = "json" -> Within(t, J!ValueFrom(t, 1).i)
    [] LangOf(g) = "xml" -> X!Xml(t).end \in {"end", "error", "any"}
    [] OTHER -> TRUE
Total == Reads(Stem)

Hash == FoldLeft(LAMBDA a, x : (5 * a + x) % 10007, g, ts)
Case(c) == PrintT("CASE " \o ToJson([lang |-> LangOf(g), root |-> IF c = 0 THEN <<>> ELSE Roots[c], nil |-> c = 0, texts |-> <<>>, pre |-> Stem,
                                     toks |-> [i \in DOMAIN Toks(g) |-> Toks(g)[i]], more |-> More]))
Contexts == IF LangOf(g) \notin InContext THEN {1} ELSE IF Len(ts) + More <= Full THEN 0 .. Len(Roots) ELSE {2 + (Hash % 2)}
Export == Len(ts) + More <= Full \/ Hash % Every = 0 => \A c \in Contexts : Case(c)
=============================================================================

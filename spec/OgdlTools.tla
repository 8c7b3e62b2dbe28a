----------------------------- MODULE OgdlTools -----------------------------
(***************************************************************************)
(* The command line tools (C24): what they print for what they are given.  *)
(* c: [tool, arg (path or template), text (sequence of texts: the files)]. *)
(* Result [u, n, o]: u TRUE where it is not specified; n the tree whose    *)
(* text form is printed (nothing for an empty one), or o the exact output. *)
(* XML and JSON give [u, ...] with bag TRUE where the order of members is  *)
(* free: then n is compared as a bag of paths.                             *)
(***************************************************************************)
EXTENDS OgdlEval, OgdlJson
X == INSTANCE OgdlXml

Plain_(text) == \A i \in DOMAIN text : text[i] >= 32 \/ IsBreak(text[i]) \/ text[i] = TAB
Nodes(text) == LET ev == Place(Events(text)) IN [i \in DOMAIN ev |-> [l |-> ev[i].l, v |-> Str_(ev[i].b)]]
Open_ == [u |-> TRUE, n |-> <<>>, o |-> <<>>, exact |-> FALSE, bag |-> FALSE]
Tr_(n) == [Open_ EXCEPT !.u = FALSE, !.n = n]
Out_(o) == [Open_ EXCEPT !.u = FALSE, !.o = o, !.exact = TRUE]

\* what the path finds in the tree; "." is all of it
Picked(nodes, path) ==
  IF path = <<46>> THEN Tr_(nodes)
  ELSE LET p == PathOf(path)
           s == Plant(HeapInit(0), Str_(<<95>>), nodes)
           r == WalkFrom(s.h @@ [calls |-> <<>>], s.id, p.a.p, "get") IN
       IF ~KnownText(path) \/ ~p.ok THEN Open_
       ELSE IF r.u # "" THEN Open_
       ELSE IF r.v.t # "g" THEN Tr_(<<>>)
       ELSE Tr_(FlatBelow(r.h, r.v.id, 0))
GPath(c) == IF ~Plain_(c.text[1]) THEN Open_ ELSE Picked(Nodes(c.text[1]), c.arg)
GTemplate(c) ==
  LET t == Template(c.arg)
      all == FlatCat([i \in DOMAIN c.text |-> Nodes(c.text[i])])
      s == Plant(HeapInit(0), Str_(<<95>>), all)
      r == Render(s.h @@ [calls |-> <<>>], s.id, t.a) IN
  IF c.text = <<>> \/ ~KnownText(c.arg) \/ ~t.ok \/ (\E i \in DOMAIN c.text : ~Plain_(c.text[i])) THEN Open_
  ELSE IF c.text[1] = <<>> \/ r.u # "" THEN Open_
  ELSE Out_(Append(r.o, 10))

\* the nodes that stand for a JSON value
RECURSIVE JNodes(_, _)
JNodes(v, l) ==
  CASE v.k = "arr" -> FlatCat([i \in DOMAIN v.e |-> <<[l |-> l, v |-> Under]>> \o JNodes(v.e[i], l + 1)])
    [] v.k = "obj" -> LET ms == Members(v.m) IN
                      <<[l |-> l, v |-> Under]>> \o FlatCat([i \in DOMAIN ms |-> <<[l |-> l + 1, v |-> Str_(v.m[ms[i]].n)]>> \o JNodes(v.m[ms[i]].v, l + 2)])
    [] v.k = "num" -> <<[l |-> l, v |-> Str_(v.b)]>>
    [] v.k = "str" -> <<[l |-> l, v |-> Str_(v.b)]>>
    [] v.k = "true" -> <<[l |-> l, v |-> Str_(<<116,114,117,101>>)]>>
    [] v.k = "false" -> <<[l |-> l, v |-> Str_(<<102,97,108,115,101>>)]>>
    [] v.k = "null" -> <<>>
\* only integers, written as they are printed
RECURSIVE Simple(_)
Simple(v) ==
  CASE v.k = "arr" -> \A i \in DOMAIN v.e : Simple(v.e[i])
    [] v.k = "obj" -> \A i \in DOMAIN v.m : Simple(v.m[i].v)
    [] v.k = "num" -> IsInt64Text(v.b) /\ v.b # <<45, 48>>
    [] OTHER -> TRUE
FromJson(c) ==
  LET v == Json_(c.text[1]) IN
  IF ~v.ok THEN Out_(<<10>>)
  ELSE IF v.rest THEN Open_
  ELSE IF v.v.k \notin {"arr", "obj"} THEN Out_(<<10>>)
  ELSE IF ~Simple(v.v) THEN Open_
  ELSE [Tr_(IF v.v.k = "arr" THEN JNodes(v.v, 0) ELSE LET n == Tail(JNodes(v.v, 0)) IN [i \in DOMAIN n |-> [n[i] EXCEPT !.l = @ - 1]]) EXCEPT !.bag = TRUE]
FromXml(c) ==
  LET x == X!Xml(c.text[1]) IN
  IF x.end = "any" THEN Open_ ELSE Picked([i \in DOMAIN x.n |-> [l |-> x.n[i].l, v |-> Str_(x.n[i].b)]], c.arg)
Tool(c) == CASE c.tool = "gpath" -> GPath(c)
             [] c.tool = "gtemplate" -> GTemplate(c)
             [] c.tool = "json2ogdl" -> FromJson(c)
             [] c.tool = "xml2ogdl" -> FromXml(c)
             [] OTHER -> Open_       \* with other options: they end

\* the paths of all nodes, from the top
RECURSIVE PathTo(_, _)
PathTo(n, i) == IF n[i].l = 0 THEN <<n[i].v.b>>
                ELSE Append(PathTo(n, SelectLastInSubSeq(n, 1, i - 1, LAMBDA x : x.l = n[i].l - 1)), n[i].v.b)
Paths(n) == [i \in DOMAIN n |-> PathTo(n, i)]
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Cardinality({x \in DOMAIN p : p[x] = p[i]}) = Cardinality({x \in DOMAIN q : q[x] = p[i]})
Prints(c, out) ==
  LET t == Tool(c) IN
  CASE t.u -> TRUE
    [] t.exact -> out = t.o
    [] t.n = <<>> -> out = (IF c.tool = "gpath" THEN <<>> ELSE <<10>>)
    [] OTHER -> Representable(t.n) => /\ out # <<>> /\ out[Len(out)] = 10
                                      /\ IF t.bag THEN SameBag(Paths(t.n), Paths(Nodes(out))) ELSE Means(out, t.n)
=============================================================================

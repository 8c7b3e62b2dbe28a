------------------------------ MODULE MC_Tools ------------------------------
(***************************************************************************)
(* Runs of the command line tools, over pools of texts, paths, templates:  *)
(* the state is what lies in the file, and every run replaces it by what   *)
(* is printed (as a tree in canonical form), so that the tools are         *)
(* composed.  Checked: a path of a text is that of what "." prints for it; *)
(* "." prints what it has printed already; two steps are a path; what is   *)
(* printed for a tree that can be written is specified; a template without *)
(* marks prints itself, from any file, and the nodes of a file come after  *)
(* those of the files before it.  Every run is exported, to be made by the *)
(* real tools.                                                             *)
(***************************************************************************)
EXTENDS OgdlTools, Json, TLC
CONSTANTS MaxRuns, Pairs
Docs == << <<97,32,98,10,99,10,32,32,100,32,49,10,32,32,101>>, <<97,10,32,32,98,10,32,32,32,32,120,10,32,32,98,10,32,32,32,32,121,10>>, <<97,32,40,98,44,32,99,41,32,100,44,32,101>>, <<39,113,32,114,39,32,34,115,10,32,116,34,10>>, <<97,32,92,10,32,32,116,119,111,10,32,32,108,105,110,101,115,10,98>>, <<34,10,10>>, <<120,32,40,49,44,32,50,44,32,51,41,13,10,121,32,39,105,116,39,10>>, <<35,32,111,110,108,121,10>>, <<>>, <<97,32,55,37,100,10,120,32,37,115,37,110,10>> >>
Ways == << <<46>>, <<97>>, <<97,46,98>>, <<97,91,48,93>>, <<97,91,49,93>>, <<97,123,125>>, <<120,123,49,125>>, <<99,46,100>>, <<110,111,112,101>>, <<120>>, <<97,91,48,93,46,98,123,125>>, <<98>>, <<39,113,32,114,39>> >>
Jsons == << <<123,34,97,34,58,32,91,49,44,32,123,34,98,34,58,32,34,99,34,125,93,44,32,34,100,34,58,32,110,117,108,108,125>>, <<91,49,44,32,34,120,32,121,34,44,32,116,114,117,101,44,32,91,93,93>>, <<123,34,97,34,58,32,123,34,97,34,58,32,123,34,97,34,58,32,45,53,125,125,125>>, <<34,120,34>>, <<123>>, <<123,34,97,34,58,49,125,32,120>>, <<91,123,34,107,34,58,34,34,44,34,107,50,34,58,34,118,34,125,93>>, <<91,110,117,108,108,44,102,97,108,115,101,93>>, <<32>>, <<123,34,195,169,34,58,34,92,117,48,48,101,57,92,110,34,125>>, <<123,34,112,34,58,91,34,53,37,100,34,44,34,37,115,34,93,125>> >>
Xmls == << <<60,97,62,98,60,99,32,100,61,34,101,34,47,62,60,47,97,62>>, <<60,97,62,60,98,62,49,60,47,98,62,60,98,62,50,60,47,98,62,60,47,97,62>>, <<60,97,32,120,61,34,49,34,32,121,61,34,34,62,32,116,32,60,47,97,62,60,97,47,62>>, <<60,97>>, <<60,120,45,121,62,38,108,116,59,60,47,120,45,121,62>>, <<60,97,62,60,98,62,60,47,97,62>>, <<116,101,120,116>>, <<>>, <<60,97,62,60,33,45,45,32,99,32,45,45,62,60,33,91,67,68,65,84,65,91,32,122,32,93,93,62,60,47,97,62>>, <<60,97,32,98,61,34,37,115,34,62,53,37,100,60,47,97,62>> >>
Tmpls == << <<36,97,59>>, <<120,32,36,98,32,36,36>>, <<36,102,111,114,40,105,44,120,41,91,36,105,93,36,101,110,100>>, <<36,105,102,40,99,46,100,61,61,49,41,121,101,115,36,101,108,115,101,59,110,111,36,101,110,100>>, <<112,108,97,105,110,10>>, <<36,120,91,49,93,10,36,120,46,121>>, <<>>, <<36,40,122,61,53,41,36,122>>, <<36,105,102,40,97,41>>, <<37,100,32,36,97,32,37,37,32,36,120,91,48,93,10>> >>

Simple_ == {1, 2, 3, 5, 8, 10, 11, 12}        \* the paths that denote at most one node, by name

\* run: the last one; n: the nodes that it gave (known: they are specified)
VARIABLES run, n, known, i
vars == <<run, n, known, i>>
Run(tool, arg, text, in) == [tool |-> tool, arg |-> arg, text |-> text, stdin |-> in, more |-> "", cut |-> IF in THEN (Len(text[1]) + Len(arg)) % 4 ELSE 0]
None == Run("", <<>>, << <<>> >>, FALSE)
Init == run = None /\ n = <<>> /\ known = FALSE /\ i = 0
Do(c) == LET t == Tool(c) IN
         /\ run' = c /\ i' = i + 1
         /\ known' = (~t.u /\ ~t.exact)
         /\ n' = IF ~t.u /\ ~t.exact THEN t.n ELSE <<>>
FirstRun ==
         \/ \E d \in DOMAIN Docs, p \in DOMAIN Ways : Do(Run("gpath", Ways[p], <<Docs[d]>>, (d + p) % 2 = 0))
         \/ \E x \in DOMAIN Jsons : Do(Run("json2ogdl", <<>>, <<Jsons[x]>>, x % 2 = 0))
         \/ \E x \in DOMAIN Xmls, p \in DOMAIN Ways : Do(Run("xml2ogdl", Ways[p], <<Xmls[x]>>, FALSE))
         \/ \E t \in DOMAIN Tmpls, d, e \in DOMAIN Docs : ((d + e + t) % Pairs = 0) /\ Do(Run("gtemplate", Tmpls[t], <<Docs[d], Docs[e]>>, FALSE))
         \/ \E t \in DOMAIN Tmpls, d \in DOMAIN Docs : Do(Run("gtemplate", Tmpls[t], <<Docs[d]>>, FALSE))
\* what was printed, given to the next
NextRun ==
        /\ known /\ n # <<>> /\ Representable(n)
        /\ \/ \E p \in DOMAIN Ways : Do(Run("gpath", Ways[p], <<EmitText(n)>>, p % 2 = 0))
           \/ \E t \in DOMAIN Tmpls : Do(Run("gtemplate", Tmpls[t], <<EmitText(n)>>, FALSE))
Next == i < MaxRuns /\ IF i = 0 THEN FirstRun ELSE NextRun
Spec == Init /\ [][Next]_vars

Flat_(q) == [k \in DOMAIN q |-> <<q[k].l, q[k].v.b>>]
Again == i > 0 /\ run.tool = "gpath" /\ run.arg = Ways[1] /\ known => Flat_(n) = Flat_(Nodes(run.text[1]))
ReadsBack == known /\ n # <<>> /\ Representable(n) => Flat_(Nodes(EmitText(n))) = Flat_(n)
\* two steps
Steps == known /\ run.tool = "gpath" /\ run.arg # Ways[1] /\ n # <<>> =>
           \A p \in {2, 8, 11} : LET two == GPath([run EXCEPT !.arg = @ \o <<46>> \o Ways[p]])
                                     one == Picked(n, Ways[p]) IN
                                 (\E x \in Simple_ : Ways[x] = run.arg) /\ ~two.u /\ ~one.u => Flat_(two.n) = Flat_(one.n)
PlainTemplate == run.tool = "gtemplate" /\ run.arg = Tmpls[5] /\ run.text[1] # <<>> => Tool(run).exact /\ Tool(run).o = Append(run.arg, 10)
Export == i > 0 => PrintT("CASE " \o ToJson(run))
=============================================================================

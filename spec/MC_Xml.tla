------------------------------- MODULE MC_Xml -------------------------------
(***************************************************************************)
(* XML documents as sequences of tokens, read by a machine with a stack of *)
(* open elements, which puts nodes into the tree as soon as a token tells  *)
(* it to.  Checked: the nodes are those that the grammar of OgdlXml finds; *)
(* they are never taken back; the level of every node is at most that of   *)
(* the open elements when it came.                                         *)
(***************************************************************************)
EXTENDS OgdlXml, Json, TLC
CONSTANTS MaxLen, Every

Tokens == << <<60,97,62>>, <<60,98,32,99,61,34,49,34,62>>, <<60,120,45,121,47,62>>, <<60,47,97,62>>, <<60,47,98,62>>,
             <<116>>, <<32>>, <<38,108,116,59>>, <<60,33,45,45,97,45,45,62>>, <<60,33,91,67,68,65,84,65,91,32,60,93,93,62>>, <<93,93,62>>, <<60,97,32,98,62>> >>
TextOf == [k \in {6, 7, 8, 11} |-> CASE k = 6 -> <<116>> [] k = 7 -> <<32>> [] k = 8 -> <<60>> [] k = 11 -> <<>>]

\* ts: the tokens; open: the open elements ("a", "b"); n: the nodes; pend: the text not yet put into the tree; ok: no error yet
VARIABLES ts, open, n, pend, ok
vars == <<ts, open, n, pend, ok>>
Init == ts = <<>> /\ open = <<>> /\ n = <<>> /\ pend = <<>> /\ ok = TRUE
\* the tree with the pending text in it
Flushed == IF Trim(pend) = <<>> THEN n ELSE Append(n, [l |-> Len(open), b |-> Trim(pend)])
Node(l, b) == [l |-> l, b |-> b]
Markup(nodes, open1) == n' = Flushed \o nodes /\ open' = open1 /\ pend' = <<>> /\ ok' = TRUE
Die(nodes) == n' = nodes /\ open' = open /\ pend' = <<>> /\ ok' = FALSE
Close(x) == IF open # <<>> /\ open[Len(open)] = x THEN Markup(<<>>, SubSeq(open, 1, Len(open) - 1)) ELSE Die(Flushed)
Step(k) ==
  CASE k = 1 -> Markup(<<Node(Len(open), <<97>>)>>, Append(open, "a"))
    [] k = 2 -> Markup(<<Node(Len(open), <<98>>), Node(Len(open) + 1, <<64, 99>>), Node(Len(open) + 2, <<49>>)>>, Append(open, "b"))
    [] k = 3 -> Markup(<<Node(Len(open), <<120, 95, 121>>)>>, open)
    [] k = 4 -> Close("a")
    [] k = 5 -> Close("b")
    [] k \in {6, 7, 8} -> pend' = pend \o TextOf[k] /\ UNCHANGED <<open, n, ok>>
    [] k = 9 -> Markup(<<>>, open)
    [] k = 10 -> Markup(<<Node(Len(open), <<60>>)>>, open)
    [] k = 11 -> Die(n)                 \* the text before it goes with it
    [] k = 12 -> Die(Flushed)
Next == Len(ts) < MaxLen /\ ok /\ \E k \in DOMAIN Tokens : Step(k) /\ ts' = Append(ts, k)
Spec == Init /\ [][Next]_vars

Text == FlatCat([i \in DOMAIN ts |-> Tokens[ts[i]]])
Agree == Xml(Text) = [n |-> Flushed, end |-> IF ok THEN "end" ELSE "error"]
IsOne == IsTree(n) /\ (ok => IsTree(Flushed))
Grows == [][IsPrefix(n, n')]_vars
\* where a document is cut does not matter for what came before
Cut == \A m \in 1 .. Len(Text) : LET x == Xml(SubSeq(Text, 1, m)) IN x.end = "error" => IsPrefix(x.n, Flushed)
Hash == FoldLeft(LAMBDA a, k : (5 * a + k) % 10007, 0, ts)
Export == (~ok \/ Len(ts) = MaxLen) /\ (Hash % Every = 0) => PrintT("CASE " \o ToJson([t |-> Text]))
=============================================================================

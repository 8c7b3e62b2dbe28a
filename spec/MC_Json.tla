------------------------------ MODULE MC_Json ------------------------------
(***************************************************************************)
(* JSON texts as sequences of tokens, read by a machine with a stack of    *)
(* open objects and lists.  Checked: the machine ends exactly where the    *)
(* grammar finds a value and nothing after it, dies only where there is no *)
(* value, and the number of values agrees.                                 *)
(* Every sequence is exported, up to the token that the machine dies of.   *)
(***************************************************************************)
EXTENDS OgdlJson, Json, TLC
CONSTANTS MaxLen, Every

Tokens == << <<123>>, <<125>>, <<91>>, <<93>>, <<44>>, <<58>>, <<34,97,34>>, <<34,98,34>>, <<49>>, <<45,50,46,53>>, <<116,114,117,101>>, <<110,117,108,108>> >>
O == 1  CO == 2  L == 3  CL == 4  Comma_ == 5  Colon_ == 6
IsStr(k) == k \in {7, 8}
IsScalar(k) == k >= 7

\* q: what is expected: a value "v", a value or the end of the list "v1", a name "k", a name or the end of the object "k1",
\* a colon ":", what follows a value "e", nothing "end", or "dead"
VARIABLES ts, q, st, n
vars == <<ts, q, st, n>>
Init == ts = <<>> /\ q = "v" /\ st = <<>> /\ n = 0
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Follow(s) == IF s = <<>> THEN "end" ELSE "e"
Step(k) ==
  LET to(q1, st1, c) == q' = q1 /\ st' = st1 /\ n' = n + c IN
  CASE q \in {"v", "v1"} /\ k = O -> to("k1", Append(st, "o"), 0)
    [] q \in {"v", "v1"} /\ k = L -> to("v1", Append(st, "l"), 0)
    [] q \in {"v", "v1"} /\ IsScalar(k) -> to(Follow(st), st, 1)
    [] q = "v1" /\ k = CL -> to(Follow(Pop(st)), Pop(st), 1)
    [] q \in {"k", "k1"} /\ IsStr(k) -> to(":", st, 0)
    [] q = "k1" /\ k = CO -> to(Follow(Pop(st)), Pop(st), 1)
    [] q = ":" /\ k = Colon_ -> to("v", st, 0)
    [] q = "e" /\ k = Comma_ -> to(IF st[Len(st)] = "o" THEN "k" ELSE "v", st, 0)
    [] q = "e" /\ k = CL /\ st[Len(st)] = "l" -> to(Follow(Pop(st)), Pop(st), 1)
    [] q = "e" /\ k = CO /\ st[Len(st)] = "o" -> to(Follow(Pop(st)), Pop(st), 1)
    [] OTHER -> to("dead", st, 0)
Next == /\ Len(ts) < MaxLen /\ q \notin {"dead", "end"}
        /\ \E k \in DOMAIN Tokens : Step(k) /\ ts' = Append(ts, k)
Spec == Init /\ [][Next]_vars

Text(sep) == FlatCat([i \in DOMAIN ts |-> (IF i > 1 THEN sep ELSE <<>>) \o Tokens[ts[i]]])
Spaced == Text(<<32>>)
RECURSIVE Count(_)
Count(v) == 1 + (CASE v.k = "arr" -> FoldLeft(LAMBDA a, x : a + Count(x), 0, v.e) [] v.k = "obj" -> FoldLeft(LAMBDA a, x : a + Count(x.v), 0, v.m) [] OTHER -> 0)
Agree == LET v == Json_(Spaced) IN
         /\ v.ok <=> q = "end"
         /\ q = "end" => ~v.rest /\ Count(v.v) = n
\* spaces between tokens mean nothing
Spaces == q = "end" => Json_(Spaced).v = Json_(Text(<<>>)).v /\ Json_(Spaced).v = Json_(<<10>> \o Text(<<9, 13>>) \o <<32>>).v
Hash == FoldLeft(LAMBDA a, k : (5 * a + k) % 10007, 0, ts)
Export == (q \in {"dead", "end"} \/ Len(ts) = MaxLen) /\ (q = "end" \/ Hash % Every = 0) => PrintT("CASE " \o ToJson([t |-> IF Hash % 2 = 0 THEN Spaced ELSE Text(<<>>)]))
=============================================================================

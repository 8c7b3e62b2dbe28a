------------------------------ MODULE MC_Fates ------------------------------
(***************************************************************************)
(* The calls of a client and the fates of their tries, try by try.         *)
(* Checked: OgdlRemote's Outcome says the same of the whole sequence.      *)
(* Every sequence is exported, and met by a real client and server.        *)
(***************************************************************************)
EXTENDS OgdlRemote, Json, TLC
CONSTANTS NCalls, Every, Version, Kinds

\* f: the fates so far; left: tries left for this call; stale: the connection is closed; res: what became of the calls
VARIABLES f, left, stale, n, res
vars == <<f, left, stale, n, res>>
Init == f = <<>> /\ left = Tries /\ stale = FALSE /\ n = 0 /\ res = <<>>
Done(ok) == res' = Append(res, [ok |-> ok, n |-> n']) /\ left' = Tries
Try == /\ Len(res) < NCalls
       /\ IF stale THEN /\ stale' = FALSE /\ UNCHANGED <<f, n>>
                        /\ IF left = 1 THEN Done(FALSE) ELSE left' = left - 1 /\ UNCHANGED res
          ELSE \E x \in Kinds :
                 /\ f' = Append(f, x)
                 /\ stale' = (x = "okcut")
                 /\ IF x \in Through THEN n' = n + 1 /\ Done(TRUE)
                    ELSE n' = n + 1 /\ IF left = 1 THEN Done(FALSE) ELSE left' = left - 1 /\ UNCHANGED res
\* n counts the requests of this call
Next == Try
Spec == Init /\ [][Next]_vars
RECURSIVE Outcomes(_, _, _, _)
Outcomes(p, st, k, out) == IF k = 0 THEN out ELSE LET o == Outcome(f, p, st, Tries, 0) IN Outcomes(o.p, o.stale, k - 1, Append(out, o))
Total(os) == FoldLeft(LAMBDA a, o : a + o.n, 0, os)
Agree == Len(res) = NCalls =>
           LET os == Outcomes(1, FALSE, NCalls, <<>>) IN
           /\ \A i \in 1 .. NCalls : os[i].ok = res[i].ok /\ Total(SubSeq(os, 1, i)) = res[i].n
           /\ os[NCalls].stale = stale /\ Total(os) = Len(f)
Index(x) == CHOOSE i \in 1 .. 8 : <<"ok", "okcut", "creq", "drop", "cans", "lose", "late", "lreq">>[i] = x
Hash == FoldLeft(LAMBDA a, x : (11 * a + Index(x)) % 10007, 0, f)
Tag(i) == Str_(<<114,48,48,48,48,32,99,48,32,48 + i>>)      \* the harness puts the right one there
Query(i) == <<[l |-> 0, v |-> Str_(IF (Hash + i) % 7 = 0 THEN <<110,111,112,101>> ELSE EchoT)], [l |-> 0, v |-> Tag(i)], [l |-> 1, v |-> Byt_(<<0, 1, i, 255>>)]>>
Export == Len(res) = NCalls /\ Hash % Every = 0 =>
  PrintT("CASE " \o ToJson([v |-> Version, cl |-> <<[calls |-> [i \in 1 .. NCalls |-> Query(i)], raw |-> <<>>, s |-> <<>>, to |-> IF \E p \in DOMAIN f : f[p] \in Timed THEN 1 ELSE 100,
                                       f |-> [p \in DOMAIN f |-> [k |-> f[p], m |-> ((Hash * p) % 41) - 20, s |-> IF Hash % 2 = 0 THEN <<>> ELSE <<1 + (Hash % 5), 7>>]]]>>]))
=============================================================================

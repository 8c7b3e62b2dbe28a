------------------------------- MODULE T_Total -------------------------------
(* Nothing bad happened (C20): every text was used, none led to what must never be. *)
EXTENDS OgdlBytes, TraceBatch
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Texts(c) == IF Field(c, "a") THEN 1
            ELSE Len(c.texts) + (IF ~Field(c, "toks") \/ Len(c.toks) = 0 THEN 0
                                 ELSE FoldLeft(LAMBDA a, i : a + Pow(Len(c.toks), i), 0, [i \in 1 .. (IF c.pre = <<>> THEN c.more + 1 ELSE 1) |-> c.more + 1 - i]))
Why(c, r) == IF Failed(r) THEN "failed" ELSE r.facts
Conforms(c, r) == ~Failed(r) /\ r.n = Texts(c) /\ r.facts = <<>>
Check == j <= Len(Trace) => Conforms(Trace[j].c, Trace[j].r) \/ Reject(Trace[j], Why(Trace[j].c, Trace[j].r))
=============================================================================

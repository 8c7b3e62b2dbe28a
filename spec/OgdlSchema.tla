----------------------------- MODULE OgdlSchema -----------------------------
(***************************************************************************)
(* Checking a tree against a schema.  The nodes of the schema are compared *)
(* with the nodes at the same place in the tree, in depth first order; a   *)
(* schema node is a literal text, or asks for a type.                      *)
(***************************************************************************)
EXTENDS OgdlAccess

TFloat  == <<33,102,108,111,97,116>>
TInt    == <<33,105,110,116>>
TBool   == <<33,98,111,111,108>>
TString == <<33,115,116,114,105,110,103>>
TBinary == <<33,98,105,110,97,114,121>>
Want == <<119,97,110,116,32>>           \* "want "
Got  == <<44,32,103,111,116,32>>        \* ", got "

\* [ok, odd]: does a content have the type that a schema node asks for
Fits(sc, v) ==
  CASE sc = TFloat -> ToFloat(v)
    [] sc = TInt -> ToInt64(v)
    [] sc = TBool -> ToBool(v)
    [] sc = TString -> IF v.t = "s" THEN Is_(v) ELSE No_
    [] sc = TBinary -> IF v.t = "b" THEN Is_(v) ELSE No_
    [] OTHER -> No_
NodeFits(sc, v) == IF sc = <<>> \/ sc[1] # 33 THEN (IF StrOf(v) = sc THEN Is_(v) ELSE No_) ELSE Fits(sc, v)

Good == [ok |-> TRUE, odd |-> FALSE, want |-> <<>>, got |-> <<>>]
\* the schema below s for the tree below x (0: there is none)
RECURSIVE CheckBelow(_, _, _)
CheckBelow(h, s, x) ==
  FoldLeft(LAMBDA a, i :
             IF ~a.ok \/ a.odd THEN a
             ELSE LET ns == Kids(h, s)[i]
                      nx == IF i <= Len(Kids(h, x)) THEN Kids(h, x)[i] ELSE 0
                      sc == StrOf(Has(h, ns))
                      f == IF nx = 0 THEN No_ ELSE NodeFits(sc, Has(h, nx)) IN
                  IF f.odd THEN [Good EXCEPT !.odd = TRUE]
                  ELSE IF ~f.ok THEN [ok |-> FALSE, odd |-> FALSE, want |-> sc, got |-> IF nx = 0 THEN <<>> ELSE StrOf(Has(h, nx))]
                  ELSE CheckBelow(h, ns, nx),
           Good, [i \in DOMAIN Kids(h, s) |-> i])
Message(a) == IF a.ok THEN <<>> ELSE Want \o a.want \o Got \o a.got
=============================================================================

------------------------------- MODULE T_Share -------------------------------
(***************************************************************************)
(* Programs that were evaluated again and again and by several goroutines, *)
(* and trees that were read by several (C22): everything has one outcome,  *)
(* the one that it has alone and that OgdlEval gives; programs and trees   *)
(* are as they were before.                                                *)
(***************************************************************************)
EXTENDS OgdlOps, TraceBatch

OpOf(p) == [o |-> CASE p.k = "path" -> "evalp" [] p.k = "expr" -> "eval" [] OTHER -> "tmpl", s |-> p.s, p |-> <<>>, v |-> Nil_, n |-> <<>>]
Right(c, r, p, x) ==
  LET outs == r.outs[(p - 1) * Len(c.roots) + x]
      start == Plant(HeapInit(0), Str_(<<95>>), c.roots[x])
      d == Spec_(start.h @@ [calls |-> <<>>], start.id, OpOf(c.progs[p])) IN
  /\ Len(outs) = 1
  /\ d.u # "" \/ Field(outs[1].d, "big") \/ Agrees(start.h, start.id, d, outs[1])
Whys(c, r) ==
  IF Failed(r) THEN {"failed"}
  ELSE IF ~r.same THEN {"a tree that was only read has changed"}
  ELSE IF ~r.kept THEN {"a result that was returned before has changed"}
  ELSE IF r.before # r.after \/ r.before # r.after2 THEN {"a program has changed"}
  ELSE IF \E i \in DOMAIN r.reads : r.reads[i] # 1 THEN {"reads differ"}
  ELSE LET bad == {b \in (DOMAIN c.progs) \X (DOMAIN c.roots) : ~Right(c, r, b[1], b[2])} IN
       IF bad = {} THEN {} ELSE LET b == CHOOSE b \in bad : TRUE IN
       {[program |-> c.progs[b[1]], root |-> b[2], outcomes |-> r.outs[(b[1] - 1) * Len(c.roots) + b[2]]]}
Check == j <= Len(Trace) => LET w == Whys(Trace[j].c, Trace[j].r) IN w = {} \/ Reject(Trace[j], w)
=============================================================================

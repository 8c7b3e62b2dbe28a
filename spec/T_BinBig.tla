------------------------------ MODULE T_BinBig ------------------------------
(* One long content (C04): only the ends of the stream are recorded. *)
EXTENDS OgdlBinary, TraceBatch

P == <<112>>   Z == <<122>>
RECURSIVE Parents(_, _)
Parents(i, l) == IF i > l THEN <<>> ELSE EncNode(i, P) \o Parents(i + 1, l)
Conforms(c, r) ==
  IF Failed(r) THEN FALSE
  ELSE LET n   == c.n + Len(c.head)
           bin == AsBinary(c.head)
           pre == Header \o Parents(1, c.l) \o VarInt(c.l + 1) \o (IF bin THEN <<1>> \o VarInt(n) ELSE <<>>) \o c.head
           end == (IF bin THEN <<97, 0>> ELSE <<97, 0>>) \o EncNode(c.l + 1, Z) \o <<0>>
       IN /\ r.len = Len(pre) - Len(c.head) + n + Len(end) - 1
          /\ IsPrefix(pre, r.head)
          /\ IsSuffix(end, r.tail)
          /\ r.at = Len(pre) - Len(c.head)
          /\ r.same /\ r.kind = (IF bin THEN "b" ELSE "s") /\ r.next = Z
Check == j <= Len(Trace) => Conforms(Trace[j].c, Trace[j].r) \/ Reject(Trace[j], "")
=============================================================================

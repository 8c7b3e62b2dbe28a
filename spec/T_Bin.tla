------------------------------- MODULE T_Bin -------------------------------
(* Conformance of recorded binary encodings of trees with OgdlBinary (C04). *)
EXTENDS OgdlBinary, TraceBatch

\* The bytes that stand for a content, the number's being the ones sent
RawOf(v, sent) == IF v.t = "n" THEN <<>> ELSE IF v.t = "f" THEN sent ELSE v.b
SameFloat(v, sent) == IF v.t # "f" THEN TRUE
                      ELSE FloatParts(sent).ok /\ DecimalOf(sent) = DecimalOf(v.b)

HasContent(v) == v.t = "f" \/ (v.t # "n" /\ v.b # <<>>)
Expected(nodes, raw) ==
  LET lv == Levels(nodes, raw)
      w  == Written(raw) IN
  [x \in 1 .. Len(w) |-> [l |-> lv[w[x]] - 1, v |-> IF AsBinary(raw[w[x]]) THEN Byt_(raw[w[x]]) ELSE Str_(raw[w[x]])]]

IsRoot(t) == ~t.nil /\ t.v = Str_(<<95>>)
Conforms(c, r) ==
  IF Failed(r) THEN FALSE
  ELSE LET d == Decode(r.stream)
           w == SelectSeq([i \in 1 .. Len(c.tree) |-> i], LAMBDA i : HasContent(c.tree[i].v)) IN
       /\ Complete(d)
       /\ Len(d.ev) = Len(w)
       /\ LET at == [i \in 1 .. Len(c.tree) |-> IF HasContent(c.tree[i].v) THEN SelectInSeq(w, LAMBDA y : y = i) ELSE 0]
              raw == [i \in 1 .. Len(c.tree) |-> RawOf(c.tree[i].v, IF at[i] = 0 THEN <<>> ELSE d.ev[at[i]].v.b)]
              e == Expected(c.tree, raw) IN
          /\ \A i \in 1 .. Len(c.tree) : SameFloat(c.tree[i].v, raw[i])
          /\ r.stream = Enc(c.tree, raw)
          /\ \A f \in {"back", "reader", "first", "second", "file"} : r[f].n = e /\ IsRoot(r[f])
          /\ r.stream2 = r.stream
       /\ r.after = c.tree
       /\ r.intact

Check == j <= Len(Trace) => Conforms(Trace[j].c, Trace[j].r) \/ Reject(Trace[j], Enc(Trace[j].c.tree, [i \in DOMAIN Trace[j].c.tree |-> Trace[j].c.tree[i].v.b]))
=============================================================================

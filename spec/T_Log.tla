------------------------------- MODULE T_Log -------------------------------
(* Conformance of recorded sessions with OgdlLog (C06, C07). *)
EXTENDS OgdlLog, TraceBatch

RawOfTree(t) == [i \in 1 .. Len(t) |-> IF t[i].v.t = "n" THEN <<>> ELSE t[i].v.b]
Encoded(o) == IF o.o = "add" THEN Enc(o.t, RawOfTree(o.t)) ELSE o.b

\* what reading at a position must give
GetOK(f, x) ==
  LET o == At(f, x.at) IN
  IF o.n > 0 THEN ~x.err /\ ~x.tree.nil /\ x.tree.n = Place(o.ev) /\ x.next = x.at + o.n
  ELSE x.tree.nil /\ (o.cut => x.err)
GetBinOK(f, x) ==
  LET o == At(f, x.at) IN
  IF o.n > 0 THEN ~x.err /\ x.b = SubSeq(f, x.at + 1, x.at + o.n) /\ x.next = x.at + o.n
  ELSE x.nil /\ (o.cut => x.err)
RECURSIVE WalkOK(_, _, _, _)
WalkOK(f, x, i, p) ==
  LET o == At(f, p) IN
  IF o.n = 0 THEN Len(x.ats) = i - 1 /\ (o.cut => x.err)
  ELSE /\ i <= Len(x.ats) /\ x.ats[i] = p /\ x.ts[i].n = Place(o.ev)
       /\ WalkOK(f, x, i + 1, p + o.n)

\* One operation: [f (content of the file), limit (-1: none), bad]
Step(mem, a, o, x) ==
  LET f == a.f IN
  CASE o.o \in {"add", "addb"} ->
         LET b == Encoded(o)
             fits == a.limit < 0 \/ Len(f) + Len(b) <= a.limit IN
         IF fits THEN [a EXCEPT !.f = f \o b, !.bad = ~(x.pos = Len(f) /\ x.len = Len(f) + Len(b) /\ x.same)]
         ELSE [a EXCEPT !.bad = ~(x.pos < 0 /\ x.len = Len(f) /\ x.same)]
    [] o.o = "get" -> [a EXCEPT !.bad = ~(IF mem \/ x.at < 0 THEN x.tree.nil /\ x.err ELSE GetOK(f, x))]
    [] o.o = "getb" -> [a EXCEPT !.bad = ~(IF mem \/ x.at < 0 THEN x.nil /\ x.err ELSE GetBinOK(f, x))]
    [] o.o = "walk" -> [a EXCEPT !.bad = ~(mem \/ WalkOK(f, x, 1, 0))]
    [] o.o = "limit" -> [a EXCEPT !.limit = IF o.n < 0 THEN -1 ELSE Len(f) + o.n]
    [] o.o = "cut" -> [a EXCEPT !.f = SubSeq(f, 1, Max2(0, Len(f) - o.n))]
    [] o.o = "bytes" -> [a EXCEPT !.bad = ~(IF mem THEN x.b = f ELSE x.nil)]
    [] OTHER -> [a EXCEPT !.bad = x.len # Len(f)]
Session(c, r) ==
  FoldLeft(LAMBDA a, n : IF a.bad THEN a ELSE Step(c.mem, [a EXCEPT !.n = n], c.ops[n], r.res[n]),
           [f |-> <<>>, limit |-> -1, bad |-> FALSE, n |-> 0], [n \in 1 .. Len(c.ops) |-> n])
Verdict(c, r) == IF Failed(r) THEN "failed"
                 ELSE LET s == Session(c, r) IN
                      IF s.bad THEN "operation " \o ToString(s.n) ELSE IF r.file # s.f THEN "file" ELSE ""
Check == j <= Len(Trace) => Verdict(Trace[j].c, Trace[j].r) = "" \/ Reject(Trace[j], Verdict(Trace[j].c, Trace[j].r))
=============================================================================

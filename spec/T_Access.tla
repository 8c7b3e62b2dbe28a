------------------------------ MODULE T_Access ------------------------------
(* Conformance of recorded answers of the accessors with OgdlAccess (C14). *)
EXTENDS OgdlAccess, TraceBatch

Start(c) == IF c.nil THEN [h |-> HeapInit(0), id |-> 0] ELSE Plant(HeapInit(0), c.top, c.root)
\* [u, ok] of path i
Path(c, r, s, i) ==
  LET b == c.paths[i]
      p == PathOf(b)
      o == r.at[i] IN
  IF b = <<>> THEN [u |-> FALSE, ok |-> PathAnswers(s.h, s.id, o, TRUE)]
  ELSE IF s.id = 0 THEN [u |-> FALSE, ok |-> PathAnswers(s.h, 0, o, FALSE) /\ Answers(s.h, 0, o.a)]
  ELSE IF ~KnownText(b) \/ ~p.ok THEN [u |-> TRUE, ok |-> TRUE]
  ELSE LET w == WalkFrom(s.h, s.id, p.a.p, "get") IN
       IF w.u # "" \/ w.v.t = "e" THEN [u |-> TRUE, ok |-> TRUE]
       ELSE [u |-> FALSE, ok |-> Answers(w.h, w.v.id, o.a) /\ PathAnswers(w.h, w.v.id, o, FALSE)]
Faults(c, r) ==
  LET s == Start(c) IN
     (IF Answers(s.h, s.id, r.a) THEN {} ELSE {"node"})
     \cup {ToString(i) : i \in {x \in DOMAIN c.paths : ~Path(c, r, s, x).ok}}
     \cup {"find" : i \in {x \in DOMAIN c.find : ~FindAnswers(s.h, s.id, c.find[x], r.find[x])}}
     \cup (IF NormHeap(Canon([n |-> s.h.n, r |-> <<s.id>>])) = NormHeap(r.d) THEN {} ELSE {"changed"})
Conforms(c, r) == ~Failed(r) /\ Faults(c, r) = {}
Why(c, r) == IF Failed(r) THEN "failed" ELSE Faults(c, r)
Stat(c, r) == IF "STAT" \in DOMAIN IOEnv THEN PrintT("STAT " \o ToString(Cardinality({i \in DOMAIN c.paths : ~Path(c, r, Start(c), i).u})) \o " " \o ToString(Len(c.paths)) \o " ") ELSE TRUE
Check == j <= Len(Trace) => \/ Conforms(Trace[j].c, Trace[j].r) /\ Stat(Trace[j].c, Trace[j].r)
                            \/ Reject(Trace[j], Why(Trace[j].c, Trace[j].r))
=============================================================================

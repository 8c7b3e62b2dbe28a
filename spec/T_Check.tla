------------------------------ MODULE T_Check ------------------------------
(* Conformance of recorded schema checks with OgdlSchema (C15). *)
EXTENDS OgdlSchema, TraceBatch

Start(c) == LET s == IF c.snil THEN [h |-> HeapInit(0), id |-> 0] ELSE Plant(HeapInit(0), Str_(<<95>>), c.schema)
                x == IF c.tnil THEN [h |-> s.h, id |-> 0] ELSE Plant(s.h, Str_(<<95>>), c.tree) IN
            [h |-> x.h, s |-> s.id, x |-> x.id]
Conforms(c, r) ==
  /\ ~Failed(r)
  /\ LET t == Start(c)
         a == CheckBelow(t.h, t.s, t.x) IN
     /\ a.odd \/ (r.ok = a.ok /\ r.msg = Message(a))
     /\ r.ok2 = r.ok /\ r.msg2 = r.msg
     /\ NormHeap(Canon([n |-> t.h.n, r |-> <<t.s, t.x>>])) = NormHeap(r.d)
Why(c, r) == IF Failed(r) THEN "failed" ELSE LET t == Start(c) IN CheckBelow(t.h, t.s, t.x)
Stat(c, r) == IF "STAT" \in DOMAIN IOEnv THEN LET t == Start(c) IN PrintT("STAT 1 1 " \o ToString(CheckBelow(t.h, t.s, t.x).ok) \o ToString(CheckBelow(t.h, t.s, t.x).odd)) ELSE TRUE
Check == j <= Len(Trace) => \/ Conforms(Trace[j].c, Trace[j].r) /\ Stat(Trace[j].c, Trace[j].r)
                            \/ Reject(Trace[j], Why(Trace[j].c, Trace[j].r))
=============================================================================

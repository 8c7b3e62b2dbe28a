------------------------------ MODULE T_Remote ------------------------------
(***************************************************************************)
(* Conformance of recorded runs of clients, proxies and a server with      *)
(* OgdlRemote (C19): each client's events are those of the monitor, and    *)
(* where no waiting was involved, those of the fates that it met.          *)
(***************************************************************************)
EXTENDS OgdlRemote, TraceBatch

\* the request of call i of client number x, as the client is given it
TagOf(x, i) == <<114,48,48,48,48,32,99>> \o NatText(x - 1) \o <<32>> \o NatText(i)
Given(c, x, i) == LET q == c.cl[x].calls[i] IN [q EXCEPT ![2].v = Str_(TagOf(x, i))]
Which(n, P(_)) == IF \E i \in 1 .. n : P(i) THEN CHOOSE i \in 1 .. n : P(i) ELSE 0
Kinds(f) == [p \in DOMAIN f |-> f[p].k]

\* calls: the requests q and what becomes of them on the other side
Calls(c, x) == [i \in DOMAIN c.cl[x].calls |-> LET g == Given(c, x, i)  s == Sent(g) IN [s |-> s, b |-> Message(c.v, Packed(g)), a |-> Sent(Answer(s))]]
Abstract(cs, e) ==
  LET n == Len(cs) IN
  CASE e.e = "req" -> [e |-> "req", i |-> Which(n, LAMBDA i : cs[i].b = e.b)]
    [] e.e = "handle" -> [e |-> "handle", i |-> Which(n, LAMBDA i : cs[i].s = e.t /\ Handled(cs[i].s))]
    [] e.e = "ret" -> [e |-> "ret", i |-> e.i, ok |-> e.ok,
                       a |-> IF ~e.ok THEN 0
                             \* several calls may have the same answer (not found)
                             ELSE IF cs[e.i].a = e.t /\ Answers(cs[e.i].s) THEN e.i ELSE Which(n, LAMBDA i : cs[i].a = e.t)]
    [] OTHER -> [e |-> "call", i |-> e.i]

\* the outcomes of the calls of a client one after the other
Predicted(cs, f) ==
  FoldLeft(LAMBDA a, q : LET o == IF Answers(q.s) THEN Outcome(f, a.p, a.stale, Tries, 0) ELSE Refused(f, a.p, a.stale, Tries, 0) IN
                         [p |-> o.p, stale |-> o.stale, o |-> Append(a.o, o)],
           [p |-> 1, stale |-> FALSE, o |-> <<>>], cs).o
Returned(evs, i) == LET x == SelectInSeq(evs, LAMBDA e : e.e = "ret" /\ e.i = i) IN evs[x]
ClientFault(c, x, evs) ==
  LET cs == Calls(c, x)
      m == MonAll(Len(cs), [y \in DOMAIN evs |-> Abstract(cs, evs[y])])
      f == Kinds(c.cl[x].f)
      o == Predicted(cs, f) IN
  IF m.bad # "" THEN m.bad
  ELSE IF m.cur # Len(cs) \/ m.busy THEN "a call did not return"
  ELSE IF \E i \in DOMAIN cs : Returned(evs, i).ok /\ Handled(cs[i].s) /\ m.handled[i] = 0 THEN "an answer without the handler"
  ELSE IF \E p \in DOMAIN f : f[p] \in Timed THEN ""
  ELSE IF \E i \in DOMAIN cs : Returned(evs, i).ok # o[i].ok THEN "a call that should succeed fails, or the reverse"
  ELSE IF \E i \in DOMAIN cs : m.reqs[i] # o[i].n THEN "not the number of requests"
  ELSE ""

\* a connection that sends bytes by itself
HandledSeq(evs) == [y \in DOMAIN SelectSeq(evs, LAMBDA e : e.e = "handle") |-> SelectSeq(evs, LAMBDA e : e.e = "handle")[y].t]
RawFault(c, x, evs) ==
  LET s == Serve(c.cl[x].raw, 1, <<>>, <<>>)
      h == SelectSeq(s.t, LAMBDA t : Handled(t))
      got == SelectSeq(evs, LAMBDA e : e.e = "got") IN
  IF HandledSeq(evs) # h THEN "not the requests that were sent"
  ELSE IF Len(got) # 1 THEN "no connection"
  ELSE IF ~got[1].ok THEN "the server keeps the connection"
  ELSE IF ~IsPrefix(got[1].b, s.b) \/ (s.all /\ got[1].b # s.b) THEN "not the answers to the requests"
  ELSE ""

Fault(c, r, x) == IF c.cl[x].calls = <<>> THEN RawFault(c, x, r.ev[x]) ELSE ClientFault(c, x, r.ev[x])
Bad(c, r) == {x \in DOMAIN c.cl : Fault(c, r, x) # ""}
Conforms(c, r) == ~Failed(r) /\ r.stray = 0 /\ Bad(c, r) = {}
Why(c, r) == IF Failed(r) THEN "failed" ELSE IF r.stray # 0 THEN "the handler got something strange" ELSE {<<x, Fault(c, r, x)>> : x \in Bad(c, r)}
Check == j <= Len(Trace) => Conforms(Trace[j].c, Trace[j].r) \/ Reject(Trace[j], Why(Trace[j].c, Trace[j].r))
=============================================================================

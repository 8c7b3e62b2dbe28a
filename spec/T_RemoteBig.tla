----------------------------- MODULE T_RemoteBig -----------------------------
(***************************************************************************)
(* Remote calls with long contents (C19), given by a number, <<-1, i>>,    *)
(* for the content of call i: each call is handled once, as it was made,   *)
(* and its answer is its own; the messages have the length they have to.   *)
(***************************************************************************)
EXTENDS OgdlRemote, TraceBatch

\* the number of call y of client x
Number(c, x, y) == FoldLeft(LAMBDA a, z : a + Len(c.cl[z]), 0, [z \in 1 .. x - 1 |-> z]) + y
Size(q) == Len(q.head) + q.n + 1
ZT == <<122>>
Node(l, b, bin) == [l |-> l, v |-> IF bin THEN Byt_(b) ELSE Str_(b)]
Request(q, i) == <<Node(0, EchoT, FALSE), Node(0, <<-1, i>>, AsBinary(q.head)), Node(0, ZT, FALSE)>>
Reply(q, i) == <<Node(0, GotT, FALSE)>> \o [y \in 1 .. 3 |-> [Request(q, i)[y] EXCEPT !.l = 1]]
\* the length of a content on the wire, and of the whole message
LongLen(q) == 1 + (IF AsBinary(q.head) THEN 1 + Len(VarInt(Size(q))) + Size(q) + 1 ELSE Size(q) + 1)
RequestLen(q) == Len(Header) + Len(EncNode(1, EchoT)) + LongLen(q) + Len(EncNode(1, ZT)) + 1
ReplyLen(q) == RequestLen(q) + Len(EncNode(1, GotT))
IsMessage(v, m, n) == IF v = 1 THEN m.len = n /\ IsPrefix(Header, m.head) ELSE m.len = n + 4 /\ IsPrefix(Int4(n) \o Header, m.head)

CallFault(c, o, q, i) ==
  IF ~o.ok THEN "a call fails"
  ELSE IF o.t # Reply(q, i) THEN "not the answer to this request"
  ELSE IF ~IsMessage(c.v, o.req, RequestLen(q)) THEN "not the message of the request"
  ELSE IF ~IsMessage(c.v, o.ans, ReplyLen(q)) THEN "not the message of the answer"
  ELSE ""
Pairs(c) == UNION {{<<x, y>> : y \in DOMAIN c.cl[x]} : x \in DOMAIN c.cl}
Requests(c) == {Request(c.cl[p[1]][p[2]], Number(c, p[1], p[2])) : p \in Pairs(c)}
Faults(c, r) == {CallFault(c, r.cl[p[1]][p[2]], c.cl[p[1]][p[2]], Number(c, p[1], p[2])) : p \in Pairs(c)} \ {""}
HandledAll(c, r) == Len(r.handled) = Cardinality(Pairs(c)) /\ {r.handled[y] : y \in DOMAIN r.handled} = Requests(c)
Conforms(c, r) == ~Failed(r) /\ Faults(c, r) = {} /\ HandledAll(c, r)
Check == j <= Len(Trace) => Conforms(Trace[j].c, Trace[j].r) \/ Reject(Trace[j], IF Failed(Trace[j].r) THEN {"failed"} ELSE Faults(Trace[j].c, Trace[j].r))
=============================================================================

----------------------------- MODULE OgdlRemote -----------------------------
(***************************************************************************)
(* Remote functions: what a client, the network and the server may be seen *)
(* to do for one client after another call of it.  The calls of a client   *)
(* are numbered 1, 2, ...; the events are                                  *)
(*   [e: "call", i]          the client is asked for call i                *)
(*   [e: "req", i]           the whole request of call i left the client   *)
(*   [e: "handle", i]        a handler got the request of call i           *)
(*   [e: "ret", i, ok, a]    call i returned the answer to call a, or an   *)
(*                           error                                         *)
(* with 0 for what is none of the requests or answers.                     *)
(***************************************************************************)
EXTENDS OgdlBinary

Tries == 3
MonInit(n) == [cur |-> 0, busy |-> FALSE, reqs |-> [i \in 1 .. n |-> 0], handled |-> [i \in 1 .. n |-> 0], bad |-> ""]
Wrong(m, why) == [m EXCEPT !.bad = why]
MonStep(m, e) ==
  IF m.bad # "" THEN m
  ELSE CASE e.e = "call" -> IF m.busy \/ e.i # m.cur + 1 THEN Wrong(m, "call out of order") ELSE [m EXCEPT !.cur = e.i, !.busy = TRUE]
         [] e.e = "req" ->
              IF e.i = 0 THEN Wrong(m, "a request that nobody made")
              ELSE IF e.i > m.cur THEN Wrong(m, "a request before the call")
              ELSE IF m.reqs[e.i] = Tries THEN Wrong(m, "too many requests")
              ELSE [m EXCEPT !.reqs[e.i] = @ + 1]
         [] e.e = "handle" ->
              IF e.i = 0 THEN Wrong(m, "the handler got something that is no request")
              ELSE IF m.handled[e.i] = m.reqs[e.i] THEN Wrong(m, "a request was handled twice")
              ELSE [m EXCEPT !.handled[e.i] = @ + 1]
         [] e.e = "ret" ->
              IF ~m.busy \/ e.i # m.cur THEN Wrong(m, "return out of order")
              ELSE IF e.ok /\ e.a # e.i THEN Wrong(m, "not the answer to this request")
              ELSE IF e.ok /\ m.reqs[e.i] = 0 THEN Wrong(m, "an answer to no request")
              ELSE [m EXCEPT !.busy = FALSE]
MonAll(n, evs) == FoldLeft(MonStep, MonInit(n), evs)

(***************************************************************************)
(* What becomes of a call whose tries meet these fates, one after the      *)
(* other:                                                                  *)
(*   ok      request and answer go through                                 *)
(*   okcut   so do they, and then the connection is closed                 *)
(*   creq    the connection is closed within the request                   *)
(*   drop    it is closed when the request went through                    *)
(*   cans    it is closed within the answer                                *)
(*   lose    the request never arrives                                     *)
(*   late    the answer arrives when the client does not wait any more     *)
(*   lreq    the request does                                              *)
(* and "ok" for ever after.  stale: the connection that the client holds   *)
(* is closed already, which costs a try.  [ok, p: position of the next     *)
(* fate, stale, n: requests sent]                                          *)
(***************************************************************************)
Through == {"ok", "okcut"}
Fates == Through \union {"creq", "drop", "cans", "lose", "late", "lreq"}
\* the client has to wait for these to fail
Timed == {"lose", "late", "lreq"}
FateAt(f, p) == IF p <= Len(f) THEN f[p] ELSE "ok"
RECURSIVE Outcome(_, _, _, _, _)
Outcome(f, p, stale, left, n) ==
  IF left = 0 THEN [ok |-> FALSE, p |-> p, stale |-> FALSE, n |-> n]
  ELSE IF stale THEN Outcome(f, p, FALSE, left - 1, n)
  ELSE IF FateAt(f, p) \in Through THEN [ok |-> TRUE, p |-> p + 1, stale |-> FateAt(f, p) = "okcut", n |-> n + 1]
  ELSE Outcome(f, p + 1, FALSE, left - 1, n + 1)
\* An answer that the client takes for a failure (an empty one): every try fails that would not
RECURSIVE Refused(_, _, _, _, _)
Refused(f, p, stale, left, n) ==
  IF left = 0 THEN [ok |-> FALSE, p |-> p, stale |-> FALSE, n |-> n]
  ELSE IF stale THEN Refused(f, p, FALSE, left - 1, n)
  ELSE Refused(f, p + 1, FALSE, left - 1, n + 1)

(***************************************************************************)
(* Messages.  A request is the tree that the client was given, an answer   *)
(* that of the handler, in the binary format, preceded by its length in    *)
(* version 2 of the protocol.                                              *)
(***************************************************************************)
Int4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Message(v, bytes) == IF v = 1 THEN bytes ELSE Int4(Len(bytes)) \o bytes
Packed(t) == Enc(t, [i \in DOMAIN t |-> t[i].v.b])
\* a tree as it is on the other side
Sent(t) == DecodedTree(Decode(Packed(t)))
Text1(l, b) == [l |-> l, v |-> Str_(b)]
GotT == <<103,111,116>>   ErrorT == <<101,114,114,111,114>>   NotFoundT == <<110,111,116,70,111,117,110,100>>
EchoT == <<101,99,104,111>>   SlowT == <<115,108,111,119>>   EmptyT == <<101,109,112,116,121>>   NilT == <<110,105,108>>
\* The handlers of the harness: echo and slow answer with the request, empty and nil with nothing
Handled(t) == t # <<>> /\ t[1].v.b \in {EchoT, SlowT, EmptyT, NilT}
Answers(t) == t = <<>> \/ t[1].v.b \notin {EmptyT, NilT}
Answer(t) == IF ~Handled(t) THEN <<Text1(0, ErrorT), Text1(1, NotFoundT)>>
             ELSE IF ~Answers(t) THEN <<>>
             ELSE <<Text1(0, GotT)>> \o [i \in DOMAIN t |-> [t[i] EXCEPT !.l = @ + 1]]
AnswerBytes(v, t) == Message(v, IF t[1].v.b = NilT THEN <<>> ELSE Packed(Answer(t)))

\* What the server makes of a stream of bytes (version 2) that then ends: the trees it handles, the answers, and whether
\* all of the stream was used
RECURSIVE Serve(_, _, _, _)
Serve(s, i, ts, out) ==
  LET n == IF i + 3 > Len(s) \/ s[i] > 0 THEN 0 ELSE (s[i + 1] * 256 + s[i + 2]) * 256 + s[i + 3]
      d == Decode(SubSeq(s, i + 4, i + 3 + n))
      t == DecodedTree(d)
      stop == [t |-> ts, b |-> out, all |-> i + 3 + n >= Len(s)] IN
  IF n = 0 \/ i + 3 + n > Len(s) \/ ~Complete(d) \/ t = <<>> THEN stop
  ELSE Serve(s, i + 4 + n, Append(ts, t), out \o AnswerBytes(2, t))
=============================================================================

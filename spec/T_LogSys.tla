------------------------------ MODULE T_LogSys ------------------------------
(***************************************************************************)
(* Recorded system calls of additions to a log (C07).  At each of them the *)
(* machine could crash: what is on stable storage is what was written      *)
(* before the last sync; what was written later may be there or not.       *)
(***************************************************************************)
EXTENDS OgdlLog, TraceBatch

RawOfTree(t) == [i \in 1 .. Len(t) |-> IF t[i].v.t = "n" THEN <<>> ELSE t[i].v.b]
Encoded(o) == IF o.o = "add" THEN Enc(o.t, RawOfTree(o.t)) ELSE o.b

\* a: the log (s), sync mode, write through, the end of what was acknowledged as synced (safe), the ends acknowledged
S0 == [s |-> LogInit, sync |-> TRUE, through |-> FALSE, safe |-> 0, bad |-> "", at |-> 0]
Event(c, a, e) ==
  CASE e.e = "open" -> [a EXCEPT !.through = e.p = 1, !.sync = TRUE]
    [] e.e = "write" ->
         LET f2 == SubSeq(a.s.f, 1, e.n) \o e.b \o From(a.s.f, e.n + Len(e.b) + 1)
             s2 == [a.s EXCEPT !.f = f2] IN
         [a EXCEPT !.s = IF a.through THEN Synced(s2) ELSE s2,
                   !.bad = IF e.n < a.safe THEN "a write on what was synced" ELSE IF e.n > Len(a.s.f) THEN "a hole" ELSE @]
    [] e.e = "trunc" -> [a EXCEPT !.s = [@ EXCEPT !.f = SubSeq(@, 1, e.n), !.dur = Min2(@, e.n)],
                                  !.bad = IF e.n < a.safe THEN "a truncation of what was synced" ELSE @]
    [] e.e = "sync" -> [a EXCEPT !.s = Synced(@)]
    [] e.e = "begin" -> a
    [] e.e = "end" ->
         LET o == c.ops[e.n] IN
         IF o.o \in {"add", "addb"}
         THEN LET b == Encoded(o)
                  s2 == Ack(a.s, b, e.p) IN
              [a EXCEPT !.s = s2,
                        !.safe = IF a.sync THEN e.p + Len(b) ELSE @,
                        !.bad = IF ObjectAt(s2.f, e.p) # b THEN "not readable"
                                ELSE IF a.sync /\ s2.dur < e.p + Len(b) THEN "returned before it was synced" ELSE @]
         ELSE IF o.o = "sync" THEN [a EXCEPT !.sync = TRUE]
         ELSE IF o.o = "nosync" THEN [a EXCEPT !.sync = FALSE]
         ELSE IF o.o = "dosync" THEN [a EXCEPT !.safe = Len(a.s.f), !.bad = IF a.s.dur < Len(a.s.f) THEN "Sync does not sync" ELSE @]
         ELSE a
    [] OTHER -> [a EXCEPT !.bad = "unforeseen system call"]
Verdict(c, r) ==
  IF Failed(r) THEN "failed" ELSE IF Field(r, "untraced") THEN ""
  ELSE LET a == FoldLeft(LAMBDA x, n : IF x.bad # "" THEN x ELSE Event(c, [x EXCEPT !.at = n], r.ev[n]), S0, [n \in 1 .. Len(r.ev) |-> n]) IN
       IF a.bad # "" THEN a.bad \o " at event " \o ToString(a.at)
       ELSE IF a.s.f # r.file THEN "file" 
       ELSE IF \E i \in DOMAIN a.s.pos : ~Readable(a.s, i) THEN "lost" ELSE ""
Check == j <= Len(Trace) => Verdict(Trace[j].c, Trace[j].r) = "" \/ Reject(Trace[j], Verdict(Trace[j].c, Trace[j].r))
=============================================================================

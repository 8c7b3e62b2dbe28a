------------------------------ MODULE OgdlLog ------------------------------
(***************************************************************************)
(* A log of binary objects.  The state is the content of the file as seen  *)
(* by any process (f), the length up to which it is on stable storage      *)
(* (dur), and the objects that were acknowledged: their positions (pos)    *)
(* and encodings (obj).                                                    *)
(***************************************************************************)
EXTENDS OgdlBinary

LogInit == [f |-> <<>>, dur |-> 0, pos |-> <<>>, obj |-> <<>>]

\* What is at a position (from 0): an object of n bytes with these nodes, or none (n = 0).
\* cut: the bytes from there on begin with an incomplete object.
At(f, p) == IF p < 0 \/ p >= Len(f) THEN [n |-> 0, ev |-> <<>>, cut |-> FALSE]
            ELSE LET a == ParseAt(f, p) IN
                 [n |-> IF a.s.m = "done" THEN a.n ELSE 0, ev |-> a.s.ev, cut |-> a.s.m \notin {"done", "bad"}]
ObjectAt(f, p) == LET a == At(f, p) IN IF a.n = 0 THEN <<>> ELSE SubSeq(f, p + 1, p + a.n)

\* Steps of adding an object: some of its bytes are written, then the rest, then
\* all is synced, then the position is returned.
Write(s, b) == [s EXCEPT !.f = @ \o b]
Synced(s)   == [s EXCEPT !.dur = Len(s.f)]
Ack(s, b, p) == [s EXCEPT !.pos = Append(@, p), !.obj = Append(@, b)]
\* the whole operation; without sync the object is only in the file
Add(s, b, sync) == LET w == Write(s, b) IN Ack(IF sync THEN Synced(w) ELSE w, b, Len(s.f))
\* a write that fails after any number of bytes is undone
AddFails(s) == s
\* after a crash, the file has what was synced and possibly some of what follows
CrashTo(s, n) == [s EXCEPT !.f = SubSeq(@, 1, n)]

Readable(s, i) == ObjectAt(s.f, s.pos[i]) = s.obj[i]
=============================================================================

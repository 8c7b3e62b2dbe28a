------------------------------- MODULE MC_Log -------------------------------
(***************************************************************************)
(* The log with its steps interleaved with crashes and failing writes      *)
(* (C06, C07).  pc is "idle" or the step in progress of an addition.       *)
(***************************************************************************)
EXTENDS OgdlLog, TLC, Json
CONSTANTS MaxAdds, MaxCrashes
Objects == { <<1,71,0,0>>, <<1,71,0,1,97,0,0>>, <<1,71,0,1,97,0,2,1,2,0,1,0,0>> }

VARIABLES s,         \* the log
          acked,     \* objects acknowledged with sync: [p, b]
          pc, cur, left, start, sync, adds, crashes
vars == <<s, acked, pc, cur, left, start, sync, adds, crashes>>
Init == s = LogInit /\ acked = <<>> /\ pc = "idle" /\ cur = <<>> /\ left = <<>> /\ start = 0 /\ sync \in BOOLEAN /\ adds = 0 /\ crashes = 0

Begin(b) == /\ pc = "idle" /\ adds < MaxAdds
            /\ pc' = "write" /\ cur' = b /\ left' = b /\ start' = Len(s.f) /\ adds' = adds + 1
            /\ UNCHANGED <<s, acked, sync, crashes>>
Part(n) == /\ pc = "write" /\ n <= Len(left)
           /\ s' = Write(s, SubSeq(left, 1, n)) /\ left' = From(left, n + 1)
           /\ pc' = IF n = Len(left) THEN "sync" ELSE "write"
           /\ UNCHANGED <<acked, cur, start, sync, adds, crashes>>
Fails == /\ pc = "write"                     \* no space: what was written is removed again
         /\ s' = [s EXCEPT !.f = SubSeq(@, 1, start)]
         /\ pc' = "idle" /\ UNCHANGED <<acked, cur, left, start, sync, adds, crashes>>
DoSync == /\ pc = "sync" /\ s' = (IF sync THEN Synced(s) ELSE s) /\ pc' = "return"
          /\ UNCHANGED <<acked, cur, left, start, sync, adds, crashes>>
Return == /\ pc = "return" /\ s' = Ack(s, cur, start)
          /\ acked' = (IF sync THEN Append(acked, [p |-> start, b |-> cur]) ELSE acked)
          /\ pc' = "idle" /\ UNCHANGED <<cur, left, start, sync, adds, crashes>>
SetSync == pc = "idle" /\ sync' = ~sync /\ UNCHANGED <<s, acked, pc, cur, left, start, adds, crashes>>
ExplicitSync == pc = "idle" /\ s' = Synced(s)
                /\ acked' = [i \in DOMAIN s.pos |-> [p |-> s.pos[i], b |-> s.obj[i]]]
                /\ UNCHANGED <<pc, cur, left, start, sync, adds, crashes>>
Crash(n) == /\ crashes < MaxCrashes /\ n >= s.dur /\ n <= Len(s.f)
            /\ s' = [CrashTo(s, n) EXCEPT !.dur = n, !.pos = [i \in DOMAIN acked |-> acked[i].p], !.obj = [i \in DOMAIN acked |-> acked[i].b]]
            /\ pc' = "idle" /\ crashes' = crashes + 1
            /\ UNCHANGED <<acked, cur, left, start, sync, adds>>
Next == \/ \E b \in Objects : Begin(b)
        \/ \E n \in 1 .. 13 : Part(n)
        \/ Fails \/ DoSync \/ Return \/ SetSync \/ ExplicitSync
        \/ \E n \in 0 .. Len(s.f) : Crash(n)
Spec == Init /\ [][Next]_vars

\* What was acknowledged is readable where it was said to be, whatever happened since
Acknowledged == \A i \in DOMAIN acked : ObjectAt(s.f, acked[i].p) = acked[i].b
Present == \A i \in DOMAIN s.pos : Readable(s, i)
\* an addition in progress is never taken for an object
Partial == pc = "write" /\ left # <<>> => ObjectAt(s.f, start) = <<>>
\* the positions follow each other up to the end, if nothing was cut
Order == crashes = 0 /\ pc = "idle" =>
           \A i \in DOMAIN s.pos : s.pos[i] + Len(s.obj[i]) = IF i = Len(s.pos) THEN Len(s.f) ELSE s.pos[i + 1]
=============================================================================

------------------------------- MODULE T_Lexer -------------------------------
(* Conformance of recorded lexer sessions with OgdlCursor (C03). *)
EXTENDS OgdlCursor, TraceBatch

\* 0: all as specified; otherwise the first operation that is not
Session(t, ops, res) ==
  FoldLeft(LAMBDA a, n :
             IF a.bad # 0 \/ a.s.x THEN a            \* twice beyond the end: not specified from there on
             ELSE LET s2 == Operate(a.s, t, ops[n]) IN
                  IF ~s2.x /\ res[n] # s2.v THEN [a EXCEPT !.bad = n] ELSE [a EXCEPT !.s = s2],
           [s |-> CurInit, bad |-> 0], [n \in 1 .. Len(ops) |-> n]).bad

Bad1(c, r) == IF Failed(r) THEN -1 ELSE IF Len(r.res) # Len(c.ops) THEN -2
              ELSE Session(SubSeq(c.text, 1, c.cut), c.ops, r.res)
Check == j <= Len(Trace) => Bad1(Trace[j].c, Trace[j].r) = 0 \/ Reject(Trace[j], Bad1(Trace[j].c, Trace[j].r))
=============================================================================

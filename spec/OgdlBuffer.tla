----------------------------- MODULE OgdlBuffer -----------------------------
(***************************************************************************)
(* How input arrives (C03).                                                *)
(*                                                                         *)
(* A reader delivers its bytes in pieces of any size, empty ones included, *)
(* and ends with an error (or the end of the stream), alone or together    *)
(* with the last piece.  The lexer keeps a buffer of B bytes: when all of  *)
(* it is consumed, its second half is kept and the other half is filled    *)
(* again, with as many reads as it takes.                                  *)
(*                                                                         *)
(* The client sees a cursor over the bytes delivered: reading gives the    *)
(* byte (or character) at the cursor, and unreading moves back.  The       *)
(* property of the machine is that what it delivers is always what the     *)
(* cursor points at, for every schedule of reads.                          *)
(***************************************************************************)
EXTENDS OgdlBytes
CONSTANTS B, MaxEmpty, Text

H == B \div 2
N == Len(Text)

VARIABLES sent,      \* bytes that the reader has delivered
          failed,    \* the reader has returned an error
          buf,       \* content of the buffer, a sequence of B bytes (0: not filled)
          r,         \* read position in the buffer, from 0
          last,      \* number of bytes in the buffer, B if it is full
          fill,      \* -1, or the offset up to which the buffer is filled
          empty,     \* consecutive empty reads
          rd,        \* -1, or the character read goes on when the buffer is filled
          pos,       \* the cursor: bytes of Text before it
          far,       \* the furthest position of the cursor
          hist,      \* sizes of the units read, for unreading
          got        \* what the last operation returned: [v, want]
vars == <<sent, failed, buf, r, last, fill, empty, rd, pos, far, hist, got>>

Init == /\ sent = 0 /\ failed = FALSE /\ buf = [i \in 1 .. B |-> 0] /\ r = 0 /\ last = B
        /\ fill = 0 /\ empty = 0 /\ rd = FALSE /\ pos = 0 /\ far = 0 /\ hist = <<>> /\ got = [v |-> 0, want |-> 0]

\* ------------------------------------------------------------ the reader
\* One Read of at most B - fill bytes: n bytes, and maybe an error. The last
\* error comes only when everything (that this reader ever delivers) was sent.
Read(n, err) ==
  /\ fill >= 0 /\ ~failed
  /\ n <= B - fill /\ sent + n <= N
  /\ n = 0 /\ ~err => empty < MaxEmpty
  /\ buf' = [i \in 1 .. B |-> IF i > fill /\ i <= fill + n THEN Text[sent + i - fill] ELSE buf[i]]
  /\ sent' = sent + n
  /\ failed' = err
  /\ empty' = IF n = 0 THEN empty + 1 ELSE 0
  /\ IF err \/ fill + n = B THEN fill' = -1 /\ last' = fill + n ELSE fill' = fill + n /\ UNCHANGED last
  /\ UNCHANGED <<r, rd, pos, far, hist, got>>
\* after the error, a reader only repeats it
ReadAgain == /\ fill >= 0 /\ failed
             /\ fill' = -1 /\ last' = fill
             /\ UNCHANGED <<sent, failed, buf, r, empty, rd, pos, far, hist, got>>

\* ------------------------------------------------------------- the lexer
\* what the buffer does when the cursor is at r2 afterwards
Refill(r2) == /\ buf' = [i \in 1 .. B |-> IF i <= H THEN buf[i + H] ELSE 0]
              /\ r' = r2 - H /\ fill' = H /\ empty' = 0
Keep(r2) == r' = r2 /\ UNCHANGED <<buf, fill, empty>>
Advance(r2) == IF r2 >= B /\ last = B THEN Refill(r2) ELSE Keep(r2)
AtEnd == last < B /\ r >= last

Delivered == SubSeq(Text, 1, sent)
\* what a cursor over the bytes of the reader gives
Want == IF pos >= sent /\ failed THEN EOS ELSE IF pos < N THEN Text[pos + 1] ELSE EOS

Move(n) == pos' = pos + n /\ far' = Max2(far, pos + n) /\ hist' = Append(hist, n)

Byte == /\ fill < 0 /\ ~rd
        /\ IF AtEnd
           THEN /\ got' = [v |-> EOS, want |-> Want]
                /\ Keep(last + 1)
                /\ IF pos <= sent THEN Move(sent + 1 - pos) ELSE UNCHANGED <<pos, far, hist>>
           ELSE /\ got' = [v |-> buf[r + 1], want |-> Want]
                /\ Advance(r + 1) /\ Move(1)
        /\ UNCHANGED <<sent, failed, last, rd>>

\* Characters: 1 is a byte of its own, 2 begins a character of three bytes, 3 continues one
IsFull(s) == s # <<>> /\ (s[1] # 2 \/ Len(s) >= 3 \/ \E i \in 2 .. Len(s) : s[i] # 3)
Size(s) == IF s[1] = 2 /\ Len(s) >= 3 /\ s[2] = 3 /\ s[3] = 3 THEN 3 ELSE 1
WantRune == LET s == SubSeq(Text, pos + 1, Min2(pos + 3, IF failed THEN sent ELSE N)) IN IF s = <<>> THEN <<EOS>> ELSE SubSeq(s, 1, Size(s))

Rune1 == /\ fill < 0 /\ ~rd
         /\ rd' = TRUE
         /\ IF last = B /\ ~IsFull(SubSeq(buf, r + 1, B)) THEN Refill(r) ELSE Keep(r)
         /\ UNCHANGED <<sent, failed, last, pos, far, hist, got>>
Rune2 == /\ fill < 0 /\ rd
         /\ rd' = FALSE
         /\ IF AtEnd
            THEN /\ got' = [v |-> <<EOS>>, want |-> WantRune]
                 /\ Keep(last + 1)
                 /\ IF pos <= sent THEN Move(sent + 1 - pos) ELSE UNCHANGED <<pos, far, hist>>
            ELSE LET s == SubSeq(buf, r + 1, last)
                     n == Size(s) IN
                 /\ got' = [v |-> SubSeq(s, 1, n), want |-> WantRune]
                 /\ Advance(r + n) /\ Move(n)
         /\ UNCHANGED <<sent, failed, last>>

\* Back by the unit read last, within half a buffer
Unread == /\ fill < 0 /\ ~rd /\ hist # <<>>
          /\ far - (pos - hist[Len(hist)]) <= H - 2
          /\ LET n == hist[Len(hist)] IN
             /\ pos' = pos - n /\ r' = r - n /\ hist' = SubSeq(hist, 1, Len(hist) - 1)
          /\ got' = [v |-> 0, want |-> 0]
          /\ UNCHANGED <<sent, failed, buf, last, fill, empty, rd, far>>

Next == \/ \E n \in 0 .. B, err \in BOOLEAN : Read(n, err)
        \/ ReadAgain \/ Byte \/ Rune1 \/ Rune2 \/ Unread
Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------------- properties
Correct == got.v = got.want
Inside == fill < 0 => r >= 0 /\ (last = B => r < B \/ rd)
\* the buffer holds the bytes delivered last, and those before, up to half a buffer
Window == fill < 0 => \A i \in 1 .. last : sent - last + i >= 1 => buf[i] = Text[sent - last + i]
=============================================================================

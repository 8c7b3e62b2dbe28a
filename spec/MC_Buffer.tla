------------------------------ MODULE MC_Buffer ------------------------------
EXTENDS OgdlBuffer
Bound == Len(hist) <= 4
\* only the units that can still be unread matter
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(From(s, 2))
View == <<sent, failed, buf, r, last, fill, empty, rd, pos, far, got, LET n == Len(hist) IN SubSeq(hist, Max2(1, n - 3), n)>>
Text1 == <<1, 1, 1, 1, 1, 1, 2, 3, 3, 1, 1, 2, 3, 3, 1>>
Text2 == <<2, 3, 3, 1, 2, 3, 3, 2, 3, 3, 2, 3, 1, 2>>
Text3 == <<1, 1, 1, 1, 1, 1, 1, 1>>
Text4 == <<1, 1, 1, 1, 1, 1, 1, 2, 3, 3>>
=============================================================================

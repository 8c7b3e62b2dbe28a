------------------------------ MODULE MC_Tmpl ------------------------------
(***************************************************************************)
(* Every sequence of up to MaxLen pieces of templates, over one context.   *)
(* Checked: a sequence is a template where its marks nest, and only there; *)
(* where it can be cut in two templates, it says what these say, one after *)
(* the other; text alone is itself; the value of $for is gone or replaced. *)
(* Every template is exported, to be processed by the implementation.      *)
(***************************************************************************)
EXTENDS OgdlEval, Json
CONSTANTS MaxLen, Every

\* d: what the piece is for the nesting
P(d, b) == [d |-> d, b |-> b]
Piece_ == << P("t", <<120>>),                                         \* x
            P("t", <<36,97,59>>),                                    \* $a;
            P("t", <<36,123,98,46,99,125>>),                         \* ${b.c}
            P("t", <<36,40,110,43,61,49,41>>),                       \* $(n+=1)
            P("if", <<36,105,102,40,110,41>>),                       \* $if(n)
            P("if", <<36,105,102,40,33,110,41>>),                    \* $if(!n)
            P("elseif", <<36,101,108,115,101,105,102,40,105,61,61,50,41>>),   \* $elseif(i==2)
            P("else", <<36,101,108,115,101,32>>),                    \* $else
            P("end", <<36,101,110,100,10>>),                         \* $end
            P("for", <<36,102,111,114,40,105,44,108,41>>),           \* $for(i,l)
            P("for", <<36,102,111,114,40,97,44,109,41>>),            \* $for(a,m)
            P("t", <<36,105,32>>),                                   \* $i
            P("break", <<36,98,114,101,97,107,32>>),                 \* $break
            P("t", <<36,92>>) >>                                     \* $\
S(l, b) == [l |-> l, v |-> [t |-> "s", b |-> b, g |-> ""]]
I(l, b) == [l |-> l, v |-> [t |-> "i", b |-> b, g |-> "int64"]]
\* a A; b c 5; n 0; l (1, 2, 3); m ((k), 4)
Root == << S(0, <<97>>), S(1, <<65>>), S(0, <<98>>), S(1, <<99>>), I(2, <<53>>), S(0, <<110>>), I(1, <<48>>),
           S(0, <<108>>), I(1, <<49>>), I(1, <<50>>), I(1, <<51>>), S(0, <<109>>), S(1, <<107>>), S(2, <<113>>), I(1, <<52>>) >>

VARIABLES s, open       \* pieces; the marks that are open
vars == <<s, open>>
Init == s = <<>> /\ open = <<>>
Last_(q) == q[Len(q)]
\* the marks open after a piece; <<"bad">> if it cannot come there
Opens(o, d) ==
  CASE d \in {"t", "break"} -> o
    [] d \in {"if", "for"} -> Append(o, d)
    [] d = "elseif" -> IF o # <<>> /\ Last_(o) = "if" THEN o ELSE <<"bad">>
    [] d = "else" -> IF o # <<>> /\ Last_(o) = "if" THEN Append(Front(o), "else") ELSE <<"bad">>
    [] d = "end" -> IF o # <<>> /\ Last_(o) # "bad" THEN Front(o) ELSE <<"bad">>
Next == /\ Len(s) < MaxLen
        /\ \E x \in DOMAIN Piece_ :
             LET o == Opens(open, Piece_[x].d) IN
             /\ open # <<"bad">>
             /\ Len(o) + Len(s) + 1 <= MaxLen + 1
             /\ IF Len(s) < 2 THEN TRUE ELSE IF Piece_[x].d = "t" THEN (x + Len(s) + s[1] + s[2]) % Every = 0 ELSE TRUE
             /\ s' = Append(s, x) /\ open' = o
Spec == Init /\ [][Next]_vars

Bytes(q) == FlatCat([i \in DOMAIN q |-> Piece_[q[i]].b])
Ctx == Plant(HeapInit(0), Str_(<<95>>), Root)
Rendered(hp, q) == Render(hp, 1, Template(Bytes(q)).a)
NestOk == Template(Bytes(s)).ok <=> open = <<>>
\* marks open after the first n pieces
RECURSIVE OpenAfter(_)
OpenAfter(n) == IF n = 0 THEN <<>> ELSE Opens(OpenAfter(n - 1), Piece_[s[n]].d)
CutOk == open = <<>> => \A n \in 1 .. Len(s) - 1 : OpenAfter(n) = <<>> =>
           LET a == Rendered(Ctx.h, SubSeq(s, 1, n))
               b == Rendered(a.h, SubSeq(s, n + 1, Len(s)))
               c == Rendered(Ctx.h, s) IN
           /\ c.u = "" /\ a.u = ""
           /\ IF a.brk THEN c.o = a.o ELSE c.o = a.o \o b.o /\ c.h = b.h
PlainOk == (\A i \in DOMAIN s : s[i] \in {1, 14}) => Rendered(Ctx.h, s).o = FlatCat([i \in DOMAIN s |-> IF s[i] = 1 THEN <<120>> ELSE <<36>>])
\* what $for leaves: at most one node of the name, the last one of the context when it is there
LoopVar == open = <<>> => LET c == Rendered(Ctx.h, s)
                              k1 == Kids(c.h, 1) IN
                          Cardinality({i \in DOMAIN k1 : Has(c.h, k1[i]) = Str_(<<105>>)}) <= 1
Export == open = <<>> /\ s # <<>> => PrintT("CASE " \o ToJson([root |-> Root, ops |-> << [o |-> "tmpl", s |-> Bytes(s), p |-> <<>>, v |-> [t |-> "n", b |-> <<>>, g |-> ""], n |-> <<>>] >>]))
=============================================================================

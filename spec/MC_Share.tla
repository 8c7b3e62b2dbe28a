------------------------------ MODULE MC_Share ------------------------------
(***************************************************************************)
(* Several processes evaluate programs, each in a context of its own, in   *)
(* small steps (one piece of a template is one step) and in every order;   *)
(* the parsed programs are shared.  Checked: each says what it says when   *)
(* it runs alone, leaves in its context what it leaves there alone, and    *)
(* the programs stay as they are.                                          *)
(*   Mode "own":   the above;                                              *)
(*   "readers": one context for all, programs that do not write: the same; *)
(*   "one":     one context for all, programs that write: has to fail;     *)
(*   "cached":  evaluating a path keeps its value in the program: fails.   *)
(* Every choice of programs and contexts is exported.                      *)
(***************************************************************************)
EXTENDS OgdlEval, Json
CONSTANTS Procs, Mode

Texts == << <<36,110,59,36,40,110,43,61,49,41,36,110>>,
            <<36,105,102,40,110,41,121,36,40,110,61,48,41,36,101,108,115,101,32,120,36,101,110,100,36,110>>,
            <<36,102,111,114,40,105,44,108,41,36,105,45,36,40,110,61,110,43,105,41,36,101,110,100,36,110,36,105>>,
            <<36,97,59,36,98,46,99,36,108,91,48,93>>,
            <<36,40,108,91,50,93,61,110,41,36,40,107,61,108,46,95,108,101,110,41,36,107>>,
            <<36,120,36,40,120,61,97,41,36,120>>,
            <<36,102,111,114,40,110,44,108,41,36,110,36,98,114,101,97,107,32,36,101,110,100,36,110>>,
            <<36,40,109,61,108,41,36,40,109,91,48,93,61,57,41,36,123,108,91,48,93,125>>,
            <<36,123,98,46,99,125,36,105,102,40,110,61,61,49,41,36,97,36,101,110,100,36,40,98,46,100,61,39,122,39,41,36,98,46,100>>,
            <<36,108,36,110>> >>
\* $n;$(n+=1)$n
\* $if(n)y$(n=0)$else x$end$n
\* $for(i,l)$i-$(n=n+i)$end$n$i
\* $a;$b.c$l[0]
\* $(l[2]=n)$(k=l._len)$k
\* $x$(x=a)$x
\* $for(n,l)$n$break $end$n
\* $(m=l)$(m[0]=9)${l[0]}
\* ${b.c}$if(n==1)$a$end$(b.d='z')$b.d
\* $l$n
S(l, b) == [l |-> l, v |-> Str_(b)]
I(l, n) == [l |-> l, v |-> Int64_(IntOf(n))]
\* n 1; a A; b c 5; l (1, 2)      n 0; l 7; b c      nothing
Roots == << << S(0, <<110>>), I(1, 1), S(0, <<97>>), S(1, <<65>>), S(0, <<98>>), S(1, <<99>>), I(2, 5), S(0, <<108>>), I(1, 1), I(1, 2) >>,
            << S(0, <<110>>), I(1, 0), S(0, <<108>>), I(1, 7), S(0, <<98>>), S(1, <<99>>) >>,
            << >> >>
Parsed == [t \in DOMAIN Texts |-> Template(Texts[t]).a]
Writes == {t \in DOMAIN Texts : Contains(Texts[t], 61) \/ SubSeq(Texts[t], 1, 2) = <<36, 102>>}   \* = or for
Pool == IF Mode = "readers" THEN DOMAIN Texts \ Writes ELSE DOMAIN Texts
Ctx(r) == Plant(HeapInit(0), Str_(<<95>>), Roots[r])
\* one after the other: the second context is the next one
NextRoot(r) == (r % Len(Roots)) + 1
Alone == [t \in DOMAIN Texts |-> [r \in DOMAIN Roots |-> Render(Ctx(r).h, 1, Parsed[t])]]

VARIABLES prog,    \* the parsed programs
          job,     \* of each process: program and context
          st       \* of each: the context, where it is, what it said, the round
vars == <<prog, job, st>>
P == 1 .. Procs
Fresh(r) == [h |-> Ctx(r).h, i |-> 1, o |-> <<>>, brk |-> FALSE, u |-> "", n |-> 1]
Code(x) == x.t * 10 + x.r
Init == /\ prog = [t \in DOMAIN Texts |-> <<>>] /\ job = <<>> /\ st = <<>>
Choose == /\ Len(job) < Procs
          /\ \E t \in Pool, r \in DOMAIN Roots :
               LET x == [t |-> t, r |-> r] IN
               /\ IF job = <<>> THEN TRUE ELSE Code(job[Len(job)]) <= Code(x)
               /\ IF Mode \in {"one", "readers"} /\ job # <<>> THEN job[1].r = r ELSE TRUE
               /\ job' = Append(job, x)
               /\ IF Len(job) + 1 < Procs THEN UNCHANGED <<prog, st>>
                  ELSE /\ prog' = Parsed
                       /\ st' = [p \in P |-> Fresh(job'[p].r)]
Root(p) == IF st[p].n = 1 THEN job[p].r ELSE NextRoot(job[p].r)
AtEnd(p) == st[p].brk \/ st[p].i > Len(prog[job[p].t])
PieceStep(p) ==
  /\ Len(job) = Procs /\ ~AtEnd(p)
  /\ LET t == job[p].t
         x == prog[t][st[p].i]
         r == RenderPiece(st[p].h, 1, x)
         one == Mode \in {"one", "readers"} IN
     /\ st' = [q \in P |-> IF q = p THEN [st[p] EXCEPT !.h = r.h, !.i = @ + 1, !.o = @ \o r.o, !.brk = r.brk, !.u = IF r.u = "" THEN @ ELSE r.u]
                           ELSE IF one THEN [st[q] EXCEPT !.h = r.h] ELSE st[q]]
     /\ prog' = IF Mode = "cached" /\ x.k = "var" THEN [prog EXCEPT ![t][st[p].i] = [k |-> "text", b |-> r.o]] ELSE prog
  /\ UNCHANGED job
\* once more, elsewhere
Again(p) ==
  /\ Len(job) = Procs /\ AtEnd(p) /\ st[p].n = 1 /\ Mode \in {"own", "cached"}
  /\ st' = [st EXCEPT ![p] = [Fresh(NextRoot(job[p].r)) EXCEPT !.n = 2]]
  /\ UNCHANGED <<prog, job>>
Next == Choose \/ \E p \in P : PieceStep(p) \/ Again(p)
Spec == Init /\ [][Next]_vars

Tidy(h, root) == NormHeap(Canon([n |-> h.n, r |-> <<root>>]))
SameAsAlone == Len(job) = Procs => \A p \in P : AtEnd(p) =>
  LET a == Alone[job[p].t][Root(p)] IN
  /\ a.u = "" /\ st[p].u = ""
  /\ st[p].o = a.o
  /\ Mode = "one" \/ Tidy(st[p].h, 1) = Tidy(a.h, 1)
ProgramsStay == Len(job) = Procs => prog = Parsed
\* what is said up to now is the beginning of what is said alone
Growing == Len(job) = Procs => \A p \in P : LET a == Alone[job[p].t][Root(p)].o IN Len(st[p].o) <= Len(a) /\ SubSeq(a, 1, Len(st[p].o)) = st[p].o

Reads == << [o |-> "values", s |-> <<110>>, c |-> 0], [o |-> "get", s |-> <<98,46,99>>, c |-> 0], [o |-> "scalar", s |-> <<108,91,48,93>>, c |-> 0], [o |-> "eval", s |-> <<108>>, c |-> 0],
            [o |-> "text", s |-> <<>>, c |-> 0], [o |-> "binary", s |-> <<>>, c |-> 0], [o |-> "json", s |-> <<>>, c |-> 0], [o |-> "clone", s |-> <<>>, c |-> 0],
            [o |-> "equals", s |-> <<>>, c |-> 1], [o |-> "check", s |-> <<>>, c |-> 1], [o |-> "find", s |-> <<91,97,45,109,93>>, c |-> 0], [o |-> "node", s |-> <<98>>, c |-> 0], [o |-> "data", s |-> <<>>, c |-> 0] >>
Case == [roots |-> << Roots[job[1].r], Roots[NextRoot(job[1].r)] >>,
         progs |-> [p \in P |-> [k |-> "tmpl", s |-> Texts[job[p].t]]],
         order |-> FlatCat([p \in P |-> << <<p, 1>>, <<p, 2>> >>]) \o FlatCat([p \in P |-> << <<p, 2>>, <<p, 1>> >>]),
         reads |-> << Reads[1 + ((job[1].t + job[1].r) % Len(Reads))], Reads[1 + ((job[2].t + 5 * job[2].r) % Len(Reads))] >>,
         threads |-> 2 + ((job[1].t + job[2].t) % 4)]
Export == Len(job) = Procs /\ (\A p \in P : st[p] = Fresh(job[p].r)) => PrintT("CASE " \o ToJson(Case))
=============================================================================

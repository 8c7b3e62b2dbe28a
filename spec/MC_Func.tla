------------------------------ MODULE MC_Func ------------------------------
(***************************************************************************)
(* Every function and method of a pool, held at the top or further down,   *)
(* with every list of up to MaxArgs arguments of a pool, used in each way. *)
(* Checked: there is at most one call of it, exactly one if the arguments  *)
(* suit and none otherwise; nothing that was there changes; it does not    *)
(* matter where the function is.  Every one is exported.                   *)
(***************************************************************************)
EXTENDS OgdlEval, Json
CONSTANTS MaxArgs, Every

\* f_s fs_s fi_i fn_i ff_f fb_b fy_y fg_a fg_g fsi_g fig_t fs_x f_z fbf_y
Plain_ == << <<102,95,115>>, <<102,115,95,115>>, <<102,105,95,105>>, <<102,110,95,105>>, <<102,102,95,102>>, <<102,98,95,98>>, <<102,121,95,121>>, <<102,103,95,97>>, <<102,103,95,103>>, <<102,115,105,95,103>>, <<102,105,103,95,116>>, <<102,115,95,120>>, <<102,95,122>>, <<102,98,102,95,121>> >>
\* M_s Ms_s Mi_i Mn_i Mf_f Mb_b Ml_s My_y Mg_a Mg_g Msif_g Mv_s Msv_g Mis_t M_z Ms_x Mbn_g Nope ms_s
Meths == << <<77,95,115>>, <<77,115,95,115>>, <<77,105,95,105>>, <<77,110,95,105>>, <<77,102,95,102>>, <<77,98,95,98>>, <<77,108,95,115>>, <<77,121,95,121>>, <<77,103,95,97>>, <<77,103,95,103>>, <<77,115,105,102,95,103>>, <<77,118,95,115>>, <<77,115,118,95,103>>, <<77,105,115,95,116>>, <<77,95,122>>, <<77,115,95,120>>, <<77,98,110,95,103>>, <<78,111,112,101>>, <<109,115,95,115>> >>
\* 'x'  3  1.5  1==1  lv._len  y  lv  '2.5'  'true'  zz  sv  p(2)  -1/0  o.Ms_s('q')  d  '5000000000'
Pool == << <<39,120,39>>, <<51>>, <<49,46,53>>, <<49,61,61,49>>, <<108,118,46,95,108,101,110>>, <<121>>, <<108,118>>, <<39,50,46,53,39>>, <<39,116,114,117,101,39>>, <<122,122>>, <<115,118>>, <<112,40,50,41>>, <<45,49,47,48>>, <<111,46,77,115,95,115,40,39,113,39,41>>, <<100>>, <<39,53,48,48,48,48,48,48,48,48,48,39>> >>
\* the type of each, as a letter (0: none, 1: not to be said)
PoolType == << 115, 105, 102, 98, 110, 121, 103, 115, 115, 1, 115, 105, 0, 115, 103, 115 >>
\* ways of using a call: what is before and after it.  eval:@  evalp:@  get:@  tmpl:$@;  tmpl:$if(@)y$else n$end   eval:v=@  eval:'t'+@  eval:p(@)  eval:@.a[1]  evalp:@.n  tmpl:$for(i,@)$i-$end 
Wraps == << [o |-> "eval", a |-> <<>>, z |-> <<>>],
  [o |-> "evalp", a |-> <<>>, z |-> <<>>],
  [o |-> "get", a |-> <<>>, z |-> <<>>],
  [o |-> "tmpl", a |-> <<36>>, z |-> <<59>>],
  [o |-> "tmpl", a |-> <<36,105,102,40>>, z |-> <<41,121,36,101,108,115,101,32,110,36,101,110,100,32>>],
  [o |-> "eval", a |-> <<118,61>>, z |-> <<>>],
  [o |-> "eval", a |-> <<39,116,39,43>>, z |-> <<>>],
  [o |-> "eval", a |-> <<112,40>>, z |-> <<41>>],
  [o |-> "eval", a |-> <<>>, z |-> <<46,97,91,49,93>>],
  [o |-> "evalp", a |-> <<>>, z |-> <<46,110>>],
  [o |-> "tmpl", a |-> <<36,102,111,114,40,105,44>>, z |-> <<41,36,105,45,36,101,110,100,32>>] >>

Nd(l, v) == [l |-> l, v |-> v]
K(b) == [t |-> "k", b |-> b, g |-> ""]
S(b) == Str_(b)
\* the context, with the function held at f (top) and d.f
Root(b) == << Nd(0, S(<<108,118>>)), Nd(1, S(<<112>>)), Nd(1, Int64_(IntOf(7))), Nd(0, S(<<121>>)), Nd(1, Byt_(<<98,121>>)), Nd(0, S(<<115,118>>)), Nd(1, S(<<52>>)),
              Nd(0, S(<<112>>)), Nd(1, K(<<102,105,95,105>>)), Nd(0, S(<<111>>)), Nd(1, K(ObjName)),
              Nd(0, S(<<102>>)), Nd(1, K(b)), Nd(0, S(<<100>>)), Nd(1, S(<<113>>)), Nd(1, S(<<102>>)), Nd(2, K(b)), Nd(1, S(<<49>>)) >>
\* kinds: a function, a method, a remote function
Held(k) == IF k <= Len(Plain_) THEN Plain_[k] ELSE IF k <= Len(Plain_) + Len(Meths) THEN ObjName ELSE IF k = Len(Plain_) + Len(Meths) + 1 THEN <<114>> ELSE <<114, 101>>
Name(k) == IF k <= Len(Plain_) THEN <<>> ELSE IF k <= Len(Plain_) + Len(Meths) THEN <<46>> \o Meths[k - Len(Plain_)] ELSE <<46, 109>>
Kinds == 1 .. Len(Plain_) + Len(Meths) + 2

VARIABLES k, as, w, deep
vars == <<k, as, w, deep>>
Text(deeper) == (IF deeper THEN <<100, 46, 102>> ELSE <<102>>) \o Name(k) \o <<40>> \o FlatCat([i \in DOMAIN as |-> (IF i > 1 THEN <<44>> ELSE <<>>) \o Pool[as[i]]]) \o <<41>>
Whole(deeper) == Wraps[w].a \o Text(deeper) \o Wraps[w].z
Init == k \in Kinds /\ w \in DOMAIN Wraps /\ deep \in BOOLEAN /\ as = <<>>
Next == /\ Len(as) < MaxArgs
        /\ \E x \in DOMAIN Pool : /\ IF as = <<>> THEN TRUE ELSE (k + 3 * as[Len(as)] + 7 * x + 11 * w + (IF deep THEN 1 ELSE 0)) % Every = 0
                                  /\ as' = Append(as, x)
        /\ UNCHANGED <<k, w, deep>>
Spec == Init /\ [][Next]_vars

Start == Plant([n |-> <<>>, r |-> <<>>, calls |-> <<>>], S(<<95>>), Root(Held(k)))
Does_(deeper) ==
  LET s == Whole(deeper) IN
  IF Wraps[w].o = "tmpl" THEN LET r == Render(Start.h, 1, Template(s).a) IN [h |-> r.h, v |-> StrV(r.o), u |-> r.u]
  ELSE IF Wraps[w].o = "eval" THEN Eval(Start.h, 1, Expr(s).a, "eval")
  ELSE WalkFrom(Start.h, 1, PathOf(s).a.p, IF Wraps[w].o = "get" THEN "get" ELSE "eval")
Calls(r) == SelectSeq(r.h.calls, LAMBDA x : x.f = (IF k <= Len(Plain_) THEN Plain_[k] ELSE IF Held(k) = ObjName THEN Meths[k - Len(Plain_)] ELSE Held(k)))
Inner == Cardinality({i \in DOMAIN as : \/ Pool[as[i]] = Pool[14] /\ Held(k) = ObjName /\ Meths[k - Len(Plain_)] = Meths[2]
                                        \/ Pool[as[i]] = Pool[12] /\ Held(k) = Plain_[3]})
         + (IF w = 8 /\ Held(k) = Plain_[3] THEN 1 ELSE 0)
Parsed == IF Wraps[w].o = "tmpl" THEN Template(Whole(deep)).ok ELSE IF Wraps[w].o = "eval" THEN Expr(Whole(deep)).ok ELSE PathOf(Whole(deep)).ok
\* the arguments suit the function
Suits == LET ps == Params(Held(k)) IN Len(as) = Len(ps) /\ \A i \in DOMAIN as : PoolType[as[i]] \in {0, ps[i]}
Checked(r) ==
  /\ \A x \in DOMAIN Start.h.n : x = 1 \/ r.h.n[x] = Start.h.n[x]
  /\ r.u = "" =>
       /\ Len(Calls(r)) <= 1 + Inner
       /\ k <= Len(Plain_) /\ (\A i \in DOMAIN as : PoolType[as[i]] # 1 \/ i \notin DOMAIN Params(Held(k)) \/ Params(Held(k))[i] = 103) /\ Inner = 0
          => Len(Calls(r)) = (IF Len(as) = Len(Params(Held(k))) /\ (\A i \in DOMAIN as : PoolType[as[i]] \in {0, 1, Params(Held(k))[i]}) THEN 1 ELSE 0)
       /\ Held(k) = ObjName /\ Meths[k - Len(Plain_)] \notin Methods => Calls(r) = <<>>
       /\ IsRemote(Held(k)) => Len(Calls(r)) = 1
CallsRight == Parsed /\ Checked(Does_(deep))
\* where the function is makes no difference
Anywhere == LET a == Does_(TRUE)  b == Does_(FALSE) IN
            a.u = b.u /\ (a.u = "" => a.h.calls = b.h.calls /\ a.v = b.v)

Op(o, s) == [o |-> o, s |-> s, p |-> <<>>, v |-> Nil_, n |-> <<>>]
Export == PrintT("CASE " \o ToJson([root |-> Root(Held(k)), ops |-> <<Op(Wraps[w].o, Whole(deep)), Op("get", <<108,118>>)>>]))
=============================================================================

----------------------------- MODULE MC_Access -----------------------------
(***************************************************************************)
(* Every content of a pool, in every place the accessors look at: as the   *)
(* content of a node, as its value, below a name, among others.            *)
(* Checked: the conversions agree with each other.  Every case is exported.*)
(***************************************************************************)
EXTENDS OgdlAccess, Json, TLC
CONSTANT Pairs          \* also the second subnode varies

Texts == << <<>>, <<32>>, <<48>>, <<49>>, <<45,49>>, <<43,49>>, <<48,48,55>>, <<45,48>>, <<43>>, <<45>>, <<45,45,49>>, <<49,50,32>>, <<32,49,50>>, <<49,50,97>>, <<49,95,48>>, <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>, <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>, <<45,57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>, <<45,57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,57>>, <<49,46,53>>, <<45,50,46,50,53>>, <<43,46,53>>, <<53,46>>, <<46>>, <<49,101,51>>, <<49,69,45,50>>, <<49,101>>, <<101,49>>, <<49,101,43>>, <<105,110,102>>, <<45,73,110,102>>, <<78,97,78>>, <<45,110,97,110>>, <<116,114,117,101>>, <<102,97,108,115,101>>, <<84,114,117,101>>, <<84,82,85,69>>, <<116>>, <<116,114,117>>, <<116,114,117,101,101>>, <<32,116,114,117,101>>, <<116,119,111,32,119,111,114,100,115>>, <<97,44,98>>, <<195,169>>, <<51,46,48>>, <<50,46,53,101,49,55>>, <<49,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,46,53>>, <<49,50,51,52,53,54,55,56,57,48,49,50,51,52,53>>, <<49,32,50>>, <<45,53,32>>, <<45,32,53>> >>
Ints == << [b |-> <<48>>, g |-> "int"], [b |-> <<53>>, g |-> "int"], [b |-> <<45,55>>, g |-> "int"], [b |-> <<45,49,50,56>>, g |-> "int8"], [b |-> <<51,48,48>>, g |-> "int16"], [b |-> <<45,51,48,48>>, g |-> "int32"], [b |-> <<57>>, g |-> "uint"], [b |-> <<50,53,53>>, g |-> "uint8"], [b |-> <<54,53,53,51,53>>, g |-> "uint16"], [b |-> <<52,48,48,48,48,48,48,48,48,48>>, g |-> "uint32"], [b |-> <<55>>, g |-> "uint64"], [b |-> <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>, g |-> "int64"], [b |-> <<45,57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>, g |-> "int64"], [b |-> <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>, g |-> "uint64"], [b |-> <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>, g |-> "uint64"], [b |-> <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>, g |-> "uint"], [b |-> <<48>>, g |-> "int64"], [b |-> <<48>>, g |-> "uint8"], [b |-> <<49>>, g |-> "int64"] >>
Floats == << [b |-> <<48,101,43,48,48>>, g |-> "float64"], [b |-> <<49,101,43,48,48>>, g |-> "float64"], [b |-> <<49,46,53,101,43,48,48>>, g |-> "float64"], [b |-> <<45,49,46,53,101,43,48,48>>, g |-> "float64"], [b |-> <<57,46,57,101,45,48,49>>, g |-> "float64"], [b |-> <<45,57,46,57,101,45,48,49>>, g |-> "float64"], [b |-> <<49,101,43,48,54>>, g |-> "float64"], [b |-> <<49,101,45,48,53>>, g |-> "float64"], [b |-> <<49,101,43,49,56>>, g |-> "float64"], [b |-> <<45,57,46,50,101,43,49,56>>, g |-> "float64"], [b |-> <<57,46,51,101,43,49,56>>, g |-> "float64"], [b |-> <<45,57,46,51,101,43,49,56>>, g |-> "float64"], [b |-> <<49,101,43,49,57>>, g |-> "float64"], [b |-> <<49,101,43,51,48,48>>, g |-> "float64"], [b |-> <<45,50,46,53,101,45,48,49>>, g |-> "float32"], [b |-> <<51,101,43,48,48>>, g |-> "float32"], [b |-> <<78,97,78>>, g |-> "float64"], [b |-> <<43,73,110,102>>, g |-> "float64"], [b |-> <<45,73,110,102>>, g |-> "float64"] >>
Pool == [i \in DOMAIN Texts |-> Str_(Texts[i])] \o [i \in DOMAIN Texts |-> Byt_(Texts[i])]
        \o [i \in DOMAIN Ints |-> [t |-> "i", b |-> Ints[i].b, g |-> Ints[i].g]] \o [i \in DOMAIN Floats |-> [t |-> "f", b |-> Floats[i].b, g |-> Floats[i].g]]
        \o <<Bool_(TRUE), Bool_(FALSE), Nil_>>

VARIABLES a, b, shape
vars == <<a, b, shape>>
Init == a \in DOMAIN Pool /\ b \in (IF Pairs THEN DOMAIN Pool ELSE {1, 3, Len(Pool)}) /\ shape \in 1 .. 4
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

v == Pool[a]
Whole(c) == IF c.ok /\ c.v.t = "f" THEN Truncated(DecimalOf(c.v.b)) ELSE IntFromText(c.v.b)
Finite(c) == c.v.t # "f" \/ FloatParts(c.v.b).ok
\* what is an integer is that number as a float, a number, a scalar
Agree == /\ ToInt64(v).ok => ToFloat(v).ok \/ ToFloat(v).odd
         /\ ToInt64(v).ok /\ ToFloat(v).ok => Whole(ToFloat(v)) = IntFromText(ToInt64(v).v.b)
         /\ ToNumber(v).ok => ToScalar(v) = ToNumber(v) /\ ToNumber(v).v.g \in {"int64", "float64"}
         /\ ToNumber(v).ok /\ ToInt64(v).ok => Whole(ToNumber(v)) = IntFromText(ToInt64(v).v.b)
         /\ ToNumber(v).ok => ToFloat(v).ok
\* a conversion of what was converted changes nothing
Settled == ToScalar(v).ok => LET s == ToScalar(v).v IN ToScalar(s).ok /\ (s.t = "f" \/ ToScalar(s).v = s)
\* a text says what the value itself says
ByText == /\ v.t = "i" /\ ToInt64(v).ok => ToInt64(Str_(StrOf(v))) = ToInt64(v)
          /\ v.t = "f" /\ Finite([ok |-> TRUE, v |-> v]) /\ SafeDecimal(DecimalOf(v.b)) => DecimalOf(StrOf(v)) = DecimalOf(v.b)
          /\ v.t = "o" => TextBool(StrOf(v)) = ToBool(v)
          /\ Texty(v) => ToInt64(v) = ToInt64(Str_(v.b)) /\ ToFloat(v) = ToFloat(Str_(v.b)) /\ ToBool(v) = ToBool(Str_(v.b))

K == <<107>>
L(l, x) == [l |-> l, v |-> x]
Root == CASE shape = 1 -> << L(0, v), L(0, Pool[b]) >>
          [] shape = 2 -> << L(0, Str_(K)), L(1, v), L(1, Pool[b]) >>
          [] shape = 3 -> << L(0, Str_(<<120>>)), L(0, Str_(K)), L(1, Pool[b]), L(2, v) >>
          [] shape = 4 -> << L(0, Pool[b]), L(1, v), L(0, v), L(1, Str_(K)), L(0, Str_(K)), L(1, v) >>
Paths == << <<>>, K, K \o <<91,48,93>>, K \o <<91,49,93>>, <<91,48,93>>, <<91,50,93>>, <<120>>, K \o <<123,125>>, <<122>> >>
FindAll == << [k |-> "eq", s |-> StrOf(Pool[b])], [k |-> "sub", s |-> StrOf(v)], [k |-> "all", s |-> <<>>], [k |-> "bad", s |-> <<>>] >>
Export == PrintT("CASE " \o ToJson([nil |-> FALSE, top |-> IF shape = 1 THEN v ELSE Pool[b], root |-> Root, paths |-> Paths, find |-> FindAll]))
=============================================================================

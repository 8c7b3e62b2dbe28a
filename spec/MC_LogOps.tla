------------------------------ MODULE MC_LogOps ------------------------------
(* Every short sequence of log operations, as cases for the implementation. *)
EXTENDS OgdlLog, TLC, Json
CONSTANTS MaxOps
N(l, b) == [l |-> l, v |-> Str_(b)]
T1 == <<N(0, <<97>>)>>
T2 == <<N(0, <<98>>), N(1, <<0, 1>>), N(0, <<99>>)>>
Op(o, h, t, b, ref, n) == [o |-> o, h |-> h, t |-> t, b |-> b, ref |-> ref, n |-> n]
VARIABLES ops, adds
Init == ops = <<>> /\ adds = <<>>
Do(o) == ops' = Append(ops, o) /\ adds' = IF o.o \in {"add", "addb"} THEN Append(adds, Len(ops) + 1) ELSE adds
Next == /\ Len(ops) < MaxOps
        /\ \/ Do(Op("add", 0, T1, <<>>, 0, 0))
           \/ Do(Op("add", 1, T2, <<>>, 0, 0))
           \/ Do(Op("addb", 0, <<>>, Enc(T2, <<<<98>>, <<0, 1>>, <<99>>>>), 0, 0))
           \/ \E i \in DOMAIN adds : Do(Op("get", i % 2, <<>>, <<>>, adds[i], 0)) \/ Do(Op("getb", (i + 1) % 2, <<>>, <<>>, adds[i], 0))
           \/ Do(Op("reopen", 0, <<>>, <<>>, 0, 0))
           \/ Do(Op("limit", 0, <<>>, <<>>, 0, 3)) \/ Do(Op("limit", 0, <<>>, <<>>, 0, -1))
           \/ Do(Op("cut", 0, <<>>, <<>>, 0, 2))
           \/ Do(Op("nosync", 1, <<>>, <<>>, 0, 0))
Spec == Init /\ [][Next]_<<ops, adds>>
Export == Len(ops) = MaxOps /\ adds # <<>> => PrintT("CASE " \o ToJson([mem |-> FALSE, ops |-> Append(ops, Op("walk", 0, <<>>, <<>>, 0, 0))]))
=============================================================================

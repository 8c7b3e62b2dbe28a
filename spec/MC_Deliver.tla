------------------------------ MODULE MC_Deliver ------------------------------
(* Every schedule of reads for some short inputs, as cases for the implementation. *)
EXTENDS OgdlBytes, TLC, Json
CONSTANT MaxChunk
Inputs == { [bin |-> FALSE, text |-> <<97, SP, DQ, 98, LF, 99, DQ, LF, SP, 100>>],
            [bin |-> FALSE, text |-> <<97, BSL, LF, SP, 98, CR, LF, LF, 99>>],
            [bin |-> TRUE,  text |-> <<1, 71, 0, 1, 97, 0, 2, 1, 1, 0, 0, 0>>] }
VARIABLES in, chunks, sum, empties
Init == in \in Inputs /\ chunks = <<>> /\ sum = 0 /\ empties = 0
Next == /\ sum < Len(in.text)
        /\ \E n \in 0 .. MaxChunk :
             /\ n = 0 => empties < 1
             /\ chunks' = Append(chunks, n) /\ sum' = sum + n
             /\ empties' = IF n = 0 THEN empties + 1 ELSE empties
             /\ UNCHANGED in
Spec == Init /\ [][Next]_<<in, chunks, sum, empties>>
Export == sum >= Len(in.text) =>
            PrintT("CASE " \o ToJson([text |-> in.text, chunks |-> chunks, mode |-> (Len(chunks) + chunks[1]) % 4,
                                      cut |-> Len(in.text) - (IF chunks[1] = 2 THEN chunks[2] ELSE 0), api |-> Len(chunks) % 2, types |-> FALSE, bin |-> in.bin]))
=============================================================================

------------------------------ MODULE TraceMps ------------------------------
(* Validates recorded histories of matrix product states against Mps. *)
EXTENDS Mps, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, done
Init == tr \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET v == MpsBad(Traces[tr])
           IN IF v = "" THEN PrintT(<<"TRACE-OK", tr>>) ELSE PrintT(<<"TRACE-BAD", tr, 1, Traces[tr].op, v>>)
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================

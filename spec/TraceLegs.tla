----------------------------- MODULE TraceLegs -----------------------------
(* Validates recorded operations against Legs: one record is one trace.   *)
EXTENDS Legs, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, done
Init == tr \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET v == RecordBad(Traces[tr])
           IN IF v = "" THEN PrintT(<<"TRACE-OK", tr>>) ELSE PrintT(<<"TRACE-BAD", tr, 1, Traces[tr].op, v>>)
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================

---------------------------- MODULE TraceHelpers ----------------------------
(* Validates recorded calls of the helper functions against Helpers. *)
EXTENDS Helpers, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, done
Init == tr \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET v == HelperBad(Traces[tr])
           IN IF v = "" THEN PrintT(<<"TRACE-OK", tr>>) ELSE PrintT(<<"TRACE-BAD", tr, 1, Traces[tr].f, v>>)
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================

----------------------------- MODULE TraceGraph -----------------------------
(* Validates histories recorded from real graph objects against Graphs.    *)
EXTENDS Graphs, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos, g
vars == <<tr, pos, g>>
Verdict(G, e) == IF e.out = "hung" THEN "no answer"
                 ELSE IF Valid(G, e) /\ e.out # "ok" THEN "valid request rejected"
                 ELSE IF ~Valid(G, e) THEN (IF e.out = "ok" THEN "invalid request accepted" ELSE "")
                 ELSE AnswerG(G, e)
Init == tr \in 1..Len(Traces) /\ pos = 0 /\ g = <<>>
Next == /\ pos >= 0 /\ pos < Len(Traces[tr])
        /\ LET e == Traces[tr][pos + 1]
               v == Verdict(g, e)
           IN IF v = ""
              THEN /\ g' = IF Valid(g, e) THEN NextG(g, e) ELSE g
                   /\ pos' = pos + 1
                   /\ IF pos + 1 = Len(Traces[tr]) THEN PrintT(<<"TRACE-OK", tr>>) ELSE TRUE
              ELSE /\ PrintT(<<"TRACE-BAD", tr, pos + 1, e.op, v>>)
                   /\ pos' = -1 - pos
                   /\ g' = g
        /\ tr' = tr
Spec == Init /\ [][Next]_vars
=============================================================================

----------------------------- MODULE TraceNames -----------------------------
(***************************************************************************)
(* Validates histories recorded from the real name sets.  has lists, after *)
(* the event and for every live set, the names of the trace's universe     *)
(* that it reports as members.                                             *)
(***************************************************************************)
EXTENDS NameSet, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos, sets
vars == <<tr, pos, sets>>

Shown(S, e) == /\ {e.has[i].id : i \in 1..Len(e.has)} = DOMAIN S
               /\ \A i \in 1..Len(e.has) : RngN(e.has[i].names) = S[e.has[i].id].names

Verdict(S, e) ==
    IF e.out = "hung" THEN "no answer"
    ELSE IF Accepts(S, e) /\ e.out # "ok" THEN "valid request rejected"
    ELSE IF ~Accepts(S, e) /\ e.out = "ok" THEN "invalid request accepted"
    ELSE IF e.out # "ok" THEN (IF Shown(S, e) THEN "" ELSE "rejected request changed a set")
    ELSE LET a == Answer(S, e) IN IF a # "" THEN a ELSE IF Shown(After(S, e), e) THEN "" ELSE "names in use"

Init == tr \in 1..Len(Traces) /\ pos = 0 /\ sets = <<>>
Next == /\ pos >= 0 /\ pos < Len(Traces[tr])
        /\ LET e == Traces[tr][pos + 1]
               v == Verdict(sets, e)
           IN IF v = ""
              THEN /\ sets' = IF e.out = "ok" THEN After(sets, e) ELSE sets
                   /\ pos' = pos + 1
                   /\ IF pos + 1 = Len(Traces[tr]) THEN PrintT(<<"TRACE-OK", tr>>) ELSE TRUE
              ELSE /\ PrintT(<<"TRACE-BAD", tr, pos + 1, e.op, v>>)
                   /\ pos' = -1 - pos
                   /\ sets' = sets
        /\ tr' = tr
Spec == Init /\ [][Next]_vars
=============================================================================

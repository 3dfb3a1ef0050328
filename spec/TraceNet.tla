------------------------------ MODULE TraceNet ------------------------------
(***************************************************************************)
(* Validates executions recorded from the real library against CtlNet.     *)
(* TRACES (environment variable) names a JSON file: a sequence of traces,  *)
(* each a sequence of events with the snapshot of all live tensors taken   *)
(* after the event.  Each trace is one behaviour; the verdict of every     *)
(* step is total: an event that is no step of CtlNet is reported with the  *)
(* clause it breaks and ends its trace.                                    *)
(***************************************************************************)
EXTENDS Observed, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos, heap
vars == <<tr, pos, heap>>

Init == /\ tr \in 1..Len(Traces)
        /\ pos = 0
        /\ heap = <<>>

Next == /\ pos >= 0 /\ pos < Len(Traces[tr])
        /\ LET e == Traces[tr][pos + 1]
               w == Verdict(heap, e)
               from == IF pos = 0 THEN <<>> ELSE Traces[tr][pos].snap
               v == IF w # "" THEN w ELSE IF MetaBad(from, e) # "" THEN MetaBad(from, e) ELSE LibBad(from, e)
           IN IF v = ""
              THEN /\ heap' = SnapHeap(e)
                   /\ pos' = pos + 1
                   /\ IF pos + 1 = Len(Traces[tr]) THEN PrintT(<<"TRACE-OK", tr>>) ELSE TRUE
              ELSE /\ PrintT(<<"TRACE-BAD", tr, pos + 1, e.op, v>>)
                   /\ pos' = -1 - pos
                   /\ heap' = heap
        /\ tr' = tr

Spec == Init /\ [][Next]_vars
=============================================================================

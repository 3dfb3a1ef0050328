------------------------------ MODULE TraceSeq ------------------------------
(***************************************************************************)
(* Judges searches and executions recorded from the real library.  One     *)
(* record per network:                                                     *)
(*   nodes, dims    the network                                            *)
(*   searches       [kind, model, seq (1-based), reported (-1: none)]      *)
(*   runs           [what, search, cost] executed cost of a sequence       *)
(*   steps          [search, costs, levels] library's own per-step costs   *)
(***************************************************************************)
EXTENDS ContractSeq, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

SearchVerdict(N, Dm, q) ==
    LET r == TLCEval(Exec(Dm, q.model, Start(N), q.seq))
    IN IF q.failed # "" THEN "search failed: " \o q.failed
       ELSE IF ~r.ok THEN "sequence uses a tensor that is gone or unknown"
       ELSE IF ~Complete(N, r) THEN "sequence does not contract the whole network"
       ELSE IF q.reported # -1 /\ q.reported # Total(r.costs) THEN "reported cost is not the cost of the sequence"
       ELSE IF q.kind # "greedy" /\ Total(r.costs) # Best(N, Dm, q.model) THEN "sequence is not of minimal cost"
       ELSE ""
RunVerdict(N, Dm, u) ==
    LET r == TLCEval(Exec(Dm, 0, Start(N), u.seq))
    IN IF u.failed # "" THEN "execution failed: " \o u.failed
       ELSE IF u.minimal THEN (IF u.cost # Best(N, Dm, 0) THEN "executed cost is not minimal" ELSE "")
       ELSE IF u.cost # -1 /\ u.cost # Total(r.costs) THEN "executed cost is not the sum of the step costs"
       ELSE IF u.costs # <<>> /\ u.costs # r.costs THEN "step cost"
       ELSE IF u.levels # <<>> /\ u.levels # r.levels THEN "step level"
       ELSE ""

VARIABLES tr, pos
vars == <<tr, pos>>

Items(T) == Len(T.searches) + Len(T.runs)
Verdict(T, k) == IF k <= Len(T.searches) THEN SearchVerdict(T.nodes, T.dims, T.searches[k])
                 ELSE RunVerdict(T.nodes, T.dims, T.runs[k - Len(T.searches)])
Op(T, k) == IF k <= Len(T.searches) THEN T.searches[k].kind ELSE T.runs[k - Len(T.searches)].what

Init == tr \in 1..Len(Traces) /\ pos = 0
Next == /\ pos >= 0 /\ pos < Items(Traces[tr])
        /\ LET T == Traces[tr]
               v == Verdict(T, pos + 1)
           IN IF v = "" THEN /\ pos' = pos + 1
                             /\ IF pos + 1 = Items(T) THEN PrintT(<<"TRACE-OK", tr>>) ELSE TRUE
              ELSE /\ PrintT(<<"TRACE-BAD", tr, pos + 1, Op(T, pos + 1), v>>)
                   /\ pos' = -1 - pos
        /\ tr' = tr
Spec == Init /\ [][Next]_vars
=============================================================================

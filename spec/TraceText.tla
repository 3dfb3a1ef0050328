----------------------------- MODULE TraceText -----------------------------
(***************************************************************************)
(* Validates what the real parser makes of a text.  A record: ast (empty   *)
(* for a text of no network), text, failed ("" or the exception), tensors  *)
(* [name, like, legs: [n, d, p, ok]], and edges of the graph built from    *)
(* the same text, [u, v, w] (gfailed, nodes: names).                       *)
(***************************************************************************)
EXTENDS TextNet, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
RngT(s) == {s[i] : i \in 1..Len(s)}
BagT(s) == [x \in RngT(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
MapLegs(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]

RecordBad(e) ==
    IF e.failed = "no answer" \/ e.gfailed = "no answer" THEN "no answer"
    ELSE IF e.ast = <<>> THEN (IF ~Malformed(e.text) THEN "harness: text is not malformed"
                          ELSE IF e.failed = "" \/ e.gfailed = "" THEN "malformed text accepted" ELSE "")
    ELSE IF ~Writable(e.ast) \/ Write(e.ast) # e.text THEN "harness: not the text of the network"
    ELSE IF ~Meant(e.ast) THEN (IF e.failed = "" \/ e.gfailed = "" THEN "contradictory text accepted" ELSE "")
    ELSE IF e.failed # "" THEN "text rejected"
    ELSE LET M == Meaning(e.ast)
         IN IF Len(e.tensors) # Len(M) THEN "number of tensors"
            ELSE IF \E i \in 1..Len(M) : e.tensors[i].name # M[i].name THEN "tensor name"
            ELSE IF \E i \in 1..Len(M) : ~e.tensors[i].like THEN "tensor is not shape-only"
            ELSE IF \E i \in 1..Len(M) : Len(e.tensors[i].legs) # Len(M[i].legs) THEN "number of legs"
            ELSE IF \E i \in 1..Len(M) : BagT(MapLegs(e.tensors[i].legs, LAMBDA l : [n |-> l.n, d |-> l.d])) # BagT(MapLegs(M[i].legs, LAMBDA l : [n |-> l.n, d |-> l.d]))
                 THEN "leg names or dimensions"
            ELSE IF \E i \in 1..Len(M) : BagT(MapLegs(e.tensors[i].legs, LAMBDA l : [n |-> l.n, d |-> l.d, p |-> l.p])) # BagT(M[i].legs) THEN "links"
            ELSE IF \E i \in 1..Len(M) : \E l \in RngT(e.tensors[i].legs) : ~l.ok THEN "bond inconsistent"
            ELSE IF e.gfailed # "" THEN "graph of the text failed"
            ELSE IF e.nodes # [i \in 1..Len(M) |-> M[i].name] THEN "nodes of the graph"
            ELSE IF BagT(e.edges) # TextEdges(e.ast) THEN "edges of the graph"
            ELSE ""

VARIABLES tr, done
Init == tr \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET v == RecordBad(Traces[tr])
           IN IF v = "" THEN PrintT(<<"TRACE-OK", tr>>) ELSE PrintT(<<"TRACE-BAD", tr, 1, Traces[tr].text, v>>)
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================

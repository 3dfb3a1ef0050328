------------------------------ MODULE MCGraphs ------------------------------
(***************************************************************************)
(* Closed model: every history of DEPTH additions and questions on a graph *)
(* of three nodes.  Laws: the degrees sum up to the ends of the edges, an  *)
(* added edge is seen at once and nothing else changes.  The histories are *)
(* replayed on the real classes.                                           *)
(***************************************************************************)
EXTENDS Graphs, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Kinds == {"directed", "undirected", "tensor"}
VARIABLES g, hist
vars == <<g, hist>>
Evs(G) == {[op |-> "edge", u |-> p[1], v |-> p[2], w |-> p[3]] : p \in {<<1, 2, 2>>, <<2, 1, 3>>, <<3, 2, 2>>, <<1, 4, 2>>}}
          \cup {[op |-> o, u |-> 0, v |-> 0, w |-> 0] : o \in {"index", "draw", "search", "cost"} \cap (IF G.kind = "tensor" THEN {"index", "draw", "search", "cost"} ELSE {})}
          \cup (IF G.kind = "tensor" THEN {[op |-> "free", u |-> 2, v |-> 0, w |-> 3]} ELSE {})
          \cup (IF G.kind # "directed" THEN {[op |-> "edges", u |-> 0, v |-> 0, w |-> 0]} ELSE {})
          \cup {[op |-> "node", u |-> 2, v |-> 0, w |-> 0]}
Init == /\ \E k \in Kinds : g = [kind |-> k, names |-> <<"a", "b", "">>, diag |-> <<FALSE, FALSE, FALSE>>, edges |-> <<>>]
        /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E e \in Evs(g) : /\ g' = IF Valid(g, e) THEN NextG(g, e) ELSE g
                             /\ hist' = Append(hist, e)
                             /\ IF Len(hist') = Depth THEN PrintT("BEHAVIOUR " \o ToJson([kind |-> g.kind, ev |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars
RECURSIVE SumTo(_, _)
SumTo(G, k) == IF k = 0 THEN 0 ELSE SumTo(G, k - 1) + Len(Seen(G, k))
Handshake == SumTo(g, 3) = (IF g.kind = "directed" THEN Len(g.edges)
                            ELSE FoldLeft(LAMBDA a, x : a + (IF x[2] = 0 THEN 1 ELSE 2), 0, g.edges))
Grows == [][ \/ g' = g \/ SubSeq(g'.edges, 1, Len(g'.edges) - 1) = g.edges ]_vars
=============================================================================

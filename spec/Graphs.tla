------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Graph objects as state machines: plain directed, plain undirected and   *)
(* tensor graphs (undirected, with free edges, nodes named and flagged).   *)
(*                                                                         *)
(* State: [kind ("directed" | "undirected" | "tensor"), names, diag,       *)
(*         edges: sequence of <<u, v, w>>, v = 0 for a free edge]; nodes   *)
(* count from 1.  Events add edges; observations are answers to questions  *)
(* asked at that moment, in any order and any number of times.             *)
(***************************************************************************)
EXTENDS ContractSeq

Both(G) == G.kind # "directed"
Nodes(G) == 1..Len(G.names)
Bag(s) == [x \in PRange(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
\* an undirected edge is the same read from either end
Turn(e) == IF e[2] # 0 /\ e[2] < e[1] THEN <<e[2], e[1], e[3]>> ELSE <<e[1], e[2], e[3]>>
Canon(s) == [i \in 1..Len(s) |-> Turn(s[i])]

Valid(G, e) == CASE e.op = "make" -> TRUE
                 [] e.op = "edge" -> e.u \in Nodes(G) /\ e.v \in Nodes(G)
                 [] e.op = "free" -> e.u \in Nodes(G)
                 [] e.op = "side" -> e.u \in {G.edges[e.i][1], G.edges[e.i][2]}
                 [] OTHER -> TRUE
NextG(G, e) == CASE e.op = "make" -> [kind |-> e.kind, names |-> e.names, diag |-> e.diag, edges |-> e.edges]
                 [] e.op = "edge" -> [G EXCEPT !.edges = Append(@, <<e.u, e.v, e.w>>)]
                 [] e.op = "free" -> [G EXCEPT !.edges = Append(@, <<e.u, 0, e.w>>)]
                 [] OTHER -> G

\* what a node sees: the other end and the weight of each of its edges
Seen(G, u) == LET I == SelectSeq(G.edges, LAMBDA x : x[1] = u \/ (Both(G) /\ x[2] = u))
              IN [i \in 1..Len(I) |-> <<IF I[i][1] = u THEN I[i][2] ELSE I[i][1], I[i][3]>>]

\* as a network of ContractSeq: edge ids are positions
AsNodes(G) == [u \in Nodes(G) |-> [diag |-> G.diag[u],
                E |-> SelectSeq([i \in 1..Len(G.edges) |-> i], LAMBDA i : u \in {G.edges[i][1], G.edges[i][2]})]]
AsDims(G) == [i \in 1..Len(G.edges) |-> G.edges[i][3]]

AnswerG(G, e) ==
    CASE e.op = "edges" -> IF Bag(Canon(e.got)) = Bag(Canon(G.edges)) THEN "" ELSE "edges"
      [] e.op = "node" -> IF e.deg # Len(Seen(G, e.u)) THEN "degree"
                          ELSE IF Bag(e.got) # Bag(Seen(G, e.u)) THEN "edges of a node" ELSE ""
      [] e.op = "index" -> IF Len(e.got) # Len(G.edges) \/ Cardinality(PRange(e.got)) # Len(e.got) THEN "edge indices" ELSE ""
      [] e.op = "names" -> IF e.got # G.names THEN "node names" ELSE ""
      [] e.op = "side" -> IF e.got # (IF G.edges[e.i][1] = e.u THEN G.edges[e.i][2] ELSE G.edges[e.i][1]) THEN "other side of an edge" ELSE ""
      \* the drawing: named nodes, one line per linked pair, carrying the weight of a bond of that pair
      [] e.op = "draw" -> LET B == {Turn(G.edges[i]) : i \in {i \in 1..Len(G.edges) : G.edges[i][2] # 0}}
                          IN IF e.names # G.names THEN "names in the drawing"
                             ELSE IF ~(PRange(Canon(e.got)) \subseteq B) THEN "lines of the drawing"
                             ELSE IF {<<x[1], x[2]>> : x \in PRange(Canon(e.got))} # {<<x[1], x[2]>> : x \in B} THEN "lines of the drawing"
                             ELSE IF Len(e.got) # Cardinality({<<x[1], x[2]>> : x \in B}) THEN "lines of the drawing" ELSE ""
      [] e.op = "search" -> LET N == AsNodes(G)
                                Dm == AsDims(G)
                                r == Exec(Dm, e.model, Start(N), e.seq)
                            IN IF ~r.ok \/ ~Complete(N, r) THEN "sequence does not contract the network"
                               ELSE IF e.cost # Total(r.costs) THEN "cost is not the cost of the sequence"
                               ELSE IF e.mode # "greedy" /\ e.cost # Best(N, Dm, e.model) THEN "sequence is not minimal" ELSE ""
      \* the optimal cost, asked without a search before it
      [] e.op = "cost" -> IF e.cost # Best(AsNodes(G), AsDims(G), e.model) THEN "optimal cost" ELSE ""
      [] OTHER -> ""
=============================================================================

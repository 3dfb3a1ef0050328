------------------------------ MODULE MCIsing ------------------------------
(***************************************************************************)
(* Closed model: graphs grow by one bond at a time, from every number of   *)
(* sites up to SITES, to BONDS bonds of weights -2..2.  Laws checked in    *)
(* every state; every graph reached is printed for the real library.       *)
(***************************************************************************)
EXTENDS Ising, Json, IOUtils
Sites == atoi(IOEnv.SITES)
MaxBonds == atoi(IOEnv.BONDS)
Ws == IF IOEnv.WIDE = "1" THEN {-2, -1, 0, 1, 2} ELSE {-1, 0, 2}

VARIABLE g
Init == \E n \in 1..Sites : g = [n |-> n, edges |-> <<>>]
Next == /\ Len(g.edges) < MaxBonds
        /\ \E i, j \in 0..(g.n - 1), w \in Ws :
              /\ i <= j
              /\ g' = [g EXCEPT !.edges = Append(@, <<i, j, w>>)]
              /\ PrintT("BEHAVIOUR " \o ToJson(g'))
Spec == Init /\ [][Next]_g

Flip(S) == Pow2(g.n) - 1 - S
FlipSymmetric == \A S \in 0..(Pow2(g.n) - 1) : Weight(g, S) = Weight(g, Flip(S))
NoOrder == \A p \in 1..Len(g.edges) : Z([g EXCEPT !.edges = <<g.edges[p]>> \o SubSeq(g.edges, 1, p - 1) \o SubSeq(g.edges, p + 1, Len(g.edges))]) = Z(g)
\* decimation: a last bond at a fresh leaf site multiplies Z by the trace of its weights
Leaf == \A w \in Ws : Z([n |-> g.n + 1, edges |-> Append(g.edges, <<0, g.n, w>>)]) = Z(g) * (1 + Pow2(AbsI(w)))
\* a bond of a site with itself is a constant
Loop == \A w \in Ws : Z([g EXCEPT !.edges = Append(@, <<0, 0, w>>)]) = Z(g) * (IF w > 0 THEN Pow2(w) ELSE 1)
Isolated == Z([g EXCEPT !.n = @ + 1]) = 2 * Z(g)
=============================================================================

------------------------------- MODULE MCSeq -------------------------------
(***************************************************************************)
(* Every order of contraction of every network of a small family, step by  *)
(* step: the total of a finished contraction is never below Best, some     *)
(* order reaches Best, and every intermediate result is what its members   *)
(* determine.                                                              *)
(***************************************************************************)
EXTENDS ContractSeq, IOUtils

Family == atoi(IOEnv.FAMILY)
NN == atoi(IOEnv.NODES)

\* networks: a graph on NN nodes with optional parallel bond and free legs
Pairs == {p \in (1..NN) \X (1..NN) : p[1] < p[2]}
PairSeq == SetToSeq(Pairs)
\* edge ids: 1..P for pairs, P+i for the free leg of node i, P+NN+1 for a parallel bond on the first pair
P == Len(PairSeq)
EdgesOf(i, G, F, par) == SetToSeq({k \in 1..P : k \in G /\ i \in {PairSeq[k][1], PairSeq[k][2]}}
                           \cup (IF i \in F THEN {P + i} ELSE {})
                           \cup (IF par /\ i \in {PairSeq[1][1], PairSeq[1][2]} THEN {P + NN + 1} ELSE {}))
Dims == [e \in 1..(P + NN + 1) |-> CASE Family = 1 -> 2 [] Family = 2 -> 1 + (e % 3) [] OTHER -> 2 + (e % 2)]
Diags == IF Family = 3 THEN SUBSET (1..NN) ELSE {{}}
\* a diagonal node needs equal dimensions: family 3 uses the typical cost
Model == IF Family = 3 THEN 2 ELSE 0

VARIABLES net, live, spent, best
vars == <<net, live, spent, best>>

Init == /\ \E G \in SUBSET (1..P), F \in SUBSET (1..NN), par \in BOOLEAN, dg \in Diags :
              net = [i \in 1..NN |-> [diag |-> i \in dg, E |-> EdgesOf(i, G, F, par)]]
        /\ live = Start(net)
        /\ spent = 0
        /\ best = Best(net, Dims, Model)
Next == \E s, t \in DOMAIN live : /\ s < t
                                  /\ live' = Step(live, s, t)
                                  /\ spent' = spent + StepCost(Dims, Model, live[s], live[t])
                                  /\ UNCHANGED <<net, best>>
Spec == Init /\ [][Next]_vars

Done == DOMAIN live = {1}
NeverBelow == Done => spent >= best
OpenRight == Done => live[1].es = OpenEdges(net, 1..NN)

\* some order attains Best
RECURSIVE Attains(_, _)
Attains(l, c) == IF DOMAIN l = {1} THEN c = 0
                 ELSE \E s, t \in DOMAIN l : /\ s < t
                                             /\ LET k == StepCost(Dims, Model, l[s], l[t])
                                                IN k <= c /\ Attains(Step(l, s, t), c - k)
Attained == spent = 0 /\ Cardinality(DOMAIN live) = NN => Attains(live, best)
=============================================================================

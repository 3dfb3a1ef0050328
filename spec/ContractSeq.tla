---------------------------- MODULE ContractSeq ----------------------------
(***************************************************************************)
(* Contracting a network pair by pair: costs, valid sequences, optimality. *)
(*                                                                         *)
(* A network N is a sequence of nodes [diag, E], where E is the sequence   *)
(* of edge ids of the node; Dm[e] is the dimension of edge e.  An edge     *)
(* listed by two nodes is a bond, by one node a free leg.                  *)
(*                                                                         *)
(* The state of a contraction is a function live from the indices still    *)
(* alive to [es, diag]: the set of open edges of the partial result, and   *)
(* whether it is stored as a diagonal tensor.  Contracting s with t puts   *)
(* the result at Min(s, t).                                                *)
(*                                                                         *)
(* A cost model is 0 (real dimensions) or d > 0 (every edge counts as d).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

PRange(s) == {s[i] : i \in 1..Len(s)}
Weight(Dm, model, S) == FoldSet(LAMBDA e, acc : acc * (IF model = 0 THEN Dm[e] ELSE model), 1, S)

Start(N) == [i \in 1..Len(N) |-> [es |-> PRange(N[i].E), diag |-> N[i].diag]]

Joined(a, b) == [es |-> SymDiff(a.es, b.es),
                 diag |-> a.diag /\ b.diag /\ (a.es \cap b.es # {} \/ a.es = {} \/ b.es = {})]

\* cost and level (number of loops) of one pairwise contraction:
\*   two diagonal tensors sharing a bond: one loop over the common dimension
\*   a diagonal and another tensor:       one loop per surviving leg
\*   otherwise:                           one loop per distinct leg
Loops(a, b) == IF a.diag \/ b.diag THEN SymDiff(a.es, b.es) ELSE a.es \cup b.es
BothDiag(a, b) == a.diag /\ b.diag /\ a.es \cap b.es # {}
StepCost(Dm, model, a, b) == IF BothDiag(a, b) THEN Weight(Dm, model, {CHOOSE e \in a.es : TRUE})
                             ELSE Weight(Dm, model, Loops(a, b))
StepLevel(a, b) == IF BothDiag(a, b) THEN 1 ELSE Cardinality(Loops(a, b))

CanStep(live, s, t) == s # t /\ {s, t} \subseteq DOMAIN live
Step(live, s, t) == LET lo == IF s < t THEN s ELSE t
                        hi == IF s < t THEN t ELSE s
                    IN [i \in DOMAIN live \ {hi} |-> IF i = lo THEN Joined(live[s], live[t]) ELSE live[i]]

\* a whole sequence of steps: [ok, live, costs, levels]
RECURSIVE Exec(_, _, _, _)
Exec(Dm, model, live, seq) ==
    IF seq = <<>> THEN [ok |-> TRUE, live |-> live, costs |-> <<>>, levels |-> <<>>]
    ELSE LET s == seq[1][1]  t == seq[1][2]
         IN IF ~CanStep(live, s, t) THEN [ok |-> FALSE, live |-> live, costs |-> <<>>, levels |-> <<>>]
            ELSE LET r == Exec(Dm, model, TLCEval(Step(live, s, t)), Tail(seq))
                 IN [ok |-> r.ok, live |-> r.live, costs |-> <<StepCost(Dm, model, live[s], live[t])>> \o r.costs,
                     levels |-> <<StepLevel(live[s], live[t])>> \o r.levels]
Total(costs) == FoldLeft(LAMBDA a, b : a + b, 0, costs)
Complete(N, r) == r.ok /\ DOMAIN r.live = {1}

(***************************************************************************)
(* The least total cost over all orders, by dynamic programming over the   *)
(* subsets of nodes; a subset may be reached as a diagonal or as a general *)
(* tensor, so both are kept (Inf where impossible).                        *)
(***************************************************************************)
Inf == 2000000000
Plus(a, b, c) == IF a >= Inf \/ b >= Inf THEN Inf ELSE a + b + c
OpenEdges(N, S) == LET cnt(e) == Cardinality({i \in S : e \in PRange(N[i].E)})
                   IN {e \in UNION {PRange(N[i].E) : i \in S} : cnt(e) = 1}
MinOf(S) == IF S = {} THEN Inf ELSE CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE BestUpTo(_, _, _, _)
BestUpTo(N, Dm, model, k) ==
    IF k = 1
    THEN TLCEval([p \in {<<{i}, b>> : i \in 1..Len(N), b \in BOOLEAN} |->
                    IF p[2] = N[CHOOSE i \in 1..Len(N) : i \in p[1]].diag THEN 0 ELSE Inf])
    ELSE LET B == BestUpTo(N, Dm, model, k - 1)
             Sk == {S \in SUBSET (1..Len(N)) : Cardinality(S) = k}
             open == TLCEval([S \in {p[1] : p \in DOMAIN B} |-> OpenEdges(N, S)])
             Ways(S, b) == {Plus(B[<<q[1], q[2]>>], B[<<S \ q[1], q[3]>>],
                                 StepCost(Dm, model, [es |-> open[q[1]], diag |-> q[2]], [es |-> open[S \ q[1]], diag |-> q[3]])) :
                            q \in {q \in (SUBSET S \ {{}, S}) \X BOOLEAN \X BOOLEAN :
                                   /\ Min(q[1]) = Min(S)
                                   /\ Joined([es |-> open[q[1]], diag |-> q[2]], [es |-> open[S \ q[1]], diag |-> q[3]]).diag = b}}
             New == TLCEval([p \in Sk \X BOOLEAN |-> MinOf(Ways(p[1], p[2]))])
         IN TLCEval([p \in DOMAIN B \cup DOMAIN New |-> IF p \in DOMAIN B THEN B[p] ELSE New[p]])

Best(N, Dm, model) == LET B == BestUpTo(N, Dm, model, Len(N))
                          full == 1..Len(N)
                      IN MinOf({B[<<full, TRUE>>], B[<<full, FALSE>>]})
=============================================================================

------------------------------- MODULE MCMps -------------------------------
(***************************************************************************)
(* Every sequence of DEPTH moves on a chain of SITES sites whose outer     *)
(* indices have different dimensions and whose tensor is known: the order  *)
(* stays a permutation, a move is a run of neighbour exchanges, a move and *)
(* its reverse cancel, two sites made neighbours are neighbours, and the   *)
(* tensor, listed in the order of the sites, is the one moved by the same  *)
(* exchanges.  The behaviours are printed for replay.                      *)
(***************************************************************************)
EXTENDS Mps, Json, IOUtils

N == atoi(IOEnv.SITES)
Depth == atoi(IOEnv.DEPTH)
Tok == [i \in 1..N |-> <<"x" \o ToString(i - 1)>>]
Whole == [L |-> Flat(Tok), D |-> [i \in 1..N |-> 1 + (i % 3)], re |-> [i \in 1..Prod([i \in 1..N |-> 1 + (i % 3)]) |-> i], im |-> <<>>]

VARIABLES order, cur, hist, last
vars == <<order, cur, hist, last>>
Init == order = Tok /\ cur = InOrder(Whole, Tok) /\ hist = <<>> /\ last = [op |-> "none"]

R(op, a, b) == [op |-> op, a |-> a, b |-> b]
Requests == {R("canon", i, 0) : i \in 0..(N - 1)}
       \cup {R("swap", i, i + 1) : i \in 0..(N - 2)} \cup {R("swap", i + 1, i) : i \in 0..(N - 2)}
       \cup {R("move", i, j) : i, j \in 0..(N - 1)}
       \cup {R("adj", i, j) : i, j \in 0..(N - 1)}
       \cup {R("check", i, 0) : i \in 0..(N - 1)}
       \cup {R("swap", 0, 2), R("canon", N, 0), R("move", 0, N)}
State == [order |-> order, chi |-> 1000, centre |-> 0]
\* the tensor in site order with neighbouring positions exchanged
Transposed(v, i) == LET L2 == SwappedAt(v.L, i, i + 1)
                    IN [Permute(v, L2) EXCEPT !.L = Nr(N)]
RECURSIVE Walk(_, _, _)
\* exchange position by position from i to j
Walk(v, i, j) == IF i = j THEN v ELSE IF i < j THEN Walk(Transposed(v, i), i + 1, j) ELSE Walk(Transposed(v, i - 1), i - 1, j)

Next == /\ Len(hist) < Depth
        /\ \E e \in Requests :
             /\ hist' = Append(hist, e)
             /\ last' = e
             /\ IF ~StepOk(State, e) THEN UNCHANGED <<order, cur>>
                ELSE \E q \in Orders(State, e) :
                       /\ (e.op = "adj" => \E p \in 1..N : q = Moved(order, (IF e.a < e.b THEN e.a ELSE e.b) + 1, (IF e.a < e.b THEN e.b ELSE e.a)))
                       /\ order' = q
                       /\ cur' = IF e.op = "swap" THEN Transposed(cur, Min2(e.a, e.b) + 1)
                                 ELSE IF e.op = "move" THEN Walk(cur, e.a + 1, e.b + 1)
                                 ELSE IF e.op = "adj" THEN Walk(cur, Min2(e.a, e.b) + 1, IF e.a < e.b THEN e.b ELSE e.a)
                                 ELSE cur
        /\ IF Len(hist') = Depth THEN PrintT("BEHAVIOUR " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars

Permuted == IsPerm(order, Tok)
Tensor == cur = InOrder(Whole, order)
MoveBack == \A i, j \in 1..N : Moved(Moved(order, i, j), j, i) = order
Neighbours == \A i, j \in 1..N : i < j => \E p \in 1..(N - 1) : LET q == Moved(order, i, j - 1) IN q \in Adjacents(order, i, j) /\ {q[p], q[p + 1]} = {order[i], order[j]}
=============================================================================

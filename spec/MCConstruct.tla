---------------------------- MODULE MCConstruct ----------------------------
(***************************************************************************)
(* Closed model: every combination of a few shapes, labels, data and legs. *)
(* Laws:                                                                   *)
(*  - what was deduced, given explicitly, changes nothing                  *)
(*  - a diagonal tensor with data equals the dense tensor of its entries   *)
(*  - whatever is accepted has one label per dimension, and data of the    *)
(*    right size                                                           *)
(* The combinations are printed for the real classes.                      *)
(***************************************************************************)
EXTENDS Construct, Json, IOUtils
Wide == IOEnv.WIDE = "1"
NoS == [g |-> FALSE, int |-> FALSE, D |-> <<>>]
S(D) == [g |-> TRUE, int |-> FALSE, D |-> D]
SI(n) == [g |-> TRUE, int |-> TRUE, D |-> <<n>>]
Shapes == {NoS, S(<<>>), S(<<2>>), S(<<4>>), S(<<2, 2>>), S(<<2, 3>>), SI(2), SI(3)}
          \cup (IF Wide THEN {S(<<1>>), S(<<1, 1>>), S(<<3, 2>>), S(<<2, 2, 2>>), S(<<2, 2, 2, 2>>), S(<<3, 3>>), SI(1)} ELSE {})
NoL == [g |-> FALSE, L |-> <<>>]
Lb(L) == [g |-> TRUE, L |-> L]
Labels == {NoL, Lb(<<>>), Lb(<<"x">>), Lb(<<"x", "y">>)} \cup (IF Wide THEN {Lb(<<"y", "x">>), Lb(<<"x", "y", "z">>)} ELSE {})
NoD == [g |-> FALSE, D |-> <<>>, re |-> <<>>, im |-> <<>>]
Dt(D) == [g |-> TRUE, D |-> D, re |-> [i \in 1..Prod(D) |-> i * i - 3], im |-> <<>>]
Datas == {NoD, Dt(<<>>), Dt(<<2>>), Dt(<<4>>), Dt(<<2, 2>>), Dt(<<2, 3>>)}
         \cup (IF Wide THEN {Dt(<<1>>), Dt(<<3>>), Dt(<<3, 2>>), Dt(<<4, 4>>), Dt(<<2, 2, 2>>), Dt(<<1, 1>>)} ELSE {})
NoG == [g |-> FALSE, L |-> <<>>, D |-> <<>>]
Lg(L, D) == [g |-> TRUE, L |-> L, D |-> D]
Legs == {NoG, Lg(<<>>, <<>>), Lg(<<"x">>, <<2>>), Lg(<<"x", "y">>, <<2, 2>>), Lg(<<"x", "y">>, <<2, 3>>)}
        \cup (IF Wide THEN {Lg(<<"y", "x">>, <<2, 2>>), Lg(<<"x", "y", "z">>, <<2, 2, 2>>)} ELSE {})

VARIABLES a, done
Init == /\ \E k \in {"dense", "diag"}, l \in BOOLEAN, s \in Shapes, b \in Labels, d \in Datas, g \in Legs :
              a = [kind |-> k, like |-> l, shape |-> s, labels |-> b, data |-> d, legs |-> g]
        /\ Askable(a)
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ a' = a /\ PrintT("BEHAVIOUR " \o ToJson(a))
Spec == Init /\ [][Next]_<<a, done>>

R == Deduce(a)
WellFormed == R.ok => /\ Len(R.L) = Len(R.D)
                      /\ (a.kind = "diag" => AllSame(R.D))
                      /\ (a.data.g /\ ~a.like => Len(Value(a).re) = Prod(R.D))
Known == \A i \in 1..Len(R.D) : R.D[i] > 0
Redundant == R.ok /\ Known => /\ Deduce([a EXCEPT !.labels = Lb(R.L)]) = R
                              /\ Deduce([a EXCEPT !.shape = S(R.D)]) = R
                              /\ Deduce([a EXCEPT !.legs = Lg(R.L, R.D)]) = R
                              /\ (a.data.g => Value([a EXCEPT !.legs = Lg(R.L, R.D), !.labels = NoL]) = Value(a))
DiagIsDense == R.ok /\ a.kind = "diag" /\ a.data.g /\ ~a.like =>
                  LET v == Value(a)
                      b == [a EXCEPT !.data = [g |-> TRUE, D |-> v.D, re |-> v.re, im |-> v.im], !.shape = NoS, !.labels = Lb(R.L)]
                  IN Deduce(b).ok /\ Value(b) = v
=============================================================================

----------------------------- MODULE MCHelpers -----------------------------
(***************************************************************************)
(* Closed model: all short lists over a few elements, all small counts.    *)
(* Laws of the definitions in Helpers; every instance is printed for the   *)
(* real functions.                                                         *)
(***************************************************************************)
EXTENDS Helpers, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
MaxN == atoi(IOEnv.MAXN)
Lists(S) == UNION {[1..k -> S] : k \in 0..MaxLen}
VARIABLES a, b, n, k, mode, done
vars == <<a, b, n, k, mode, done>>
Init == /\ done = FALSE
        /\ \/ mode = 1 /\ a \in Lists(0..2) /\ b \in Lists(0..2) /\ n = 0 /\ k = 0
           \/ mode = 2 /\ a = <<>> /\ b = <<>> /\ n \in 0..MaxN /\ k \in 1..4
           \/ mode = 3 /\ a \in Lists(1..3) /\ b = <<>> /\ n \in 0..(Product(a) - 1) /\ k = 0
Next == ~done /\ done' = TRUE /\ UNCHANGED <<a, b, n, k, mode>>
        /\ PrintT("BEHAVIOUR " \o ToJson([a |-> a, b |-> b, n |-> n, k |-> k, mode |-> mode]))
Spec == Init /\ [][Next]_vars

DifferenceLaw == mode = 1 /\ FitsIn(b, a) => \A x \in Elems(a) : Bag(Difference(a, b), x) = Bag(a, x) - Bag(b, x)
SymmetricBags == mode = 1 => (SameBag(a, b) = SameBag(b, a)) /\ (SameBag(a, b) = (FitsIn(a, b) /\ FitsIn(b, a)))
WithoutLaw == mode = 1 => Elems(WithoutAll(a, b)) = Elems(a) \ Elems(b)
PlacesLaw == mode = 1 => LET p == Places(a, b)
                         IN /\ \A i, j \in 1..Len(p) : i # j /\ p[i] >= 0 => p[i] # p[j]
                            /\ \A i \in 1..Len(p) : p[i] >= 0 => a[p[i] + 1] = b[i]
                            /\ (FitsIn(b, a) = \A i \in 1..Len(p) : p[i] >= 0)
\* n different things put into k boxes
WaysLaw == mode = 2 => /\ Total(MapSeq(SetToSeq(Divisions(n, k)), Ways)) = Power(k, n)
                       /\ Cardinality(Divisions(n, k)) = Choose(n + k - 1, k - 1)
DigitsLaw == mode = 3 => /\ IsDigits(Digits(n + 1, a), a) /\ RowMajor(Digits(n + 1, a), a) = n
                         /\ Cardinality({Digits(p, a) : p \in 1..Product(a)}) = Product(a)
\* summing an axis out is the Einstein sum
AxisLaw == mode = 3 /\ Len(a) > 0 =>
             LET N == <<"a", "b", "c", "d", "e", "f">>
                 v == [D |-> a, re |-> [p \in 1..Product(a) |-> p * p - 3 * p + n], im |-> <<>>]
                 t == [L |-> SubSeq(N, 1, Len(a)), D |-> a, re |-> v.re, im |-> <<>>]
             IN \A x \in 0..(Len(a) - 1) :
                   LET w == [D |-> <<a[x + 1]>>, re |-> [i \in 1..a[x + 1] |-> i - 2], im |-> <<>>]
                       u == [L |-> <<N[x + 1]>>, D |-> w.D, re |-> w.re, im |-> <<>>]
                       out == SelectSeq(t.L, LAMBDA l : l # N[x + 1])
                   IN SumAxis(v, x, w).re = Einsum(<<t, u>>, out).re
DaggerLaw == mode = 3 /\ Len(a) = 2 =>
             LET v == [D |-> a, re |-> [p \in 1..Product(a) |-> p - n], im |-> [p \in 1..Product(a) |-> p * p]]
                 g == Times(Dag(v), v)
             IN SameArr(Dag(Dag(v)), v) /\ SameArr(Dag(g), g) /\ Total([i \in 1..a[2] |-> g.re[At(g.D, <<i - 1, i - 1>>)]]) = SquareNorm(v)
=============================================================================

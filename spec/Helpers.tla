------------------------------ MODULE Helpers ------------------------------
(***************************************************************************)
(* The shared helper functions (CTL.funcs.funcs) as mathematics: lists as  *)
(* sequences and bags, indices as mixed radix numbers, arrays as values    *)
(* of Ein.  A record e of one call has                                     *)
(*   f        the function, e.g. "listDifference"                          *)
(*   a, b     lists of whole numbers (standing for arbitrary elements)     *)
(*   n, m     whole numbers                                                *)
(*   v, w     arrays [D, re, im]                                           *)
(*   ls       a list of lists                                              *)
(*   failed   "" or the exception                                          *)
(*   out      a list of whole numbers; outs: a list of lists; arr: an array*)
(*   yes      a truth value                                                *)
(***************************************************************************)
EXTENDS Ein

Bag(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Elems(s) == {s[i] : i \in 1..Len(s)}
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Elems(s) : Bag(s, x) = Bag(t, x)
FitsIn(s, t) == \A x \in Elems(s) : Bag(s, x) <= Bag(t, x)
NoDup(s) == Cardinality(Elems(s)) = Len(s)
\* positions of s taken away by an earliest-first removal of the bag u
Kept(s, u) == SelectSeq(Iota(Len(s)), LAMBDA i : Cardinality({j \in 1..i : s[j] = s[i]}) > Bag(u, s[i]))
Difference(s, u) == LET p == Kept(s, u) IN [i \in 1..Len(p) |-> s[p[i]]]
WithoutAll(s, u) == SelectSeq(s, LAMBDA x : x \notin Elems(u))
DropAt(s, I) == LET p == SelectSeq(Iota(Len(s)), LAMBDA i : (i - 1) \notin Elems(I)) IN [i \in 1..Len(p) |-> s[p[i]]]
\* where the elements of t stand in s, the k-th asking for the same element gets its k-th place, -1 when there is none
Places(s, t) == [j \in 1..Len(t) |->
                   LET k == Cardinality({i \in 1..j : t[i] = t[j]})
                       at == SelectSeq(Iota(Len(s)), LAMBDA i : s[i] = t[j])
                   IN IF k <= Len(at) THEN at[k] - 1 ELSE -1]

Power(x, n) == FoldLeft(LAMBDA p, i : p * x, 1, Iota(n))
Product(s) == FoldLeft(LAMBDA p, x : p * x, 1, s)
Total(s) == FoldLeft(LAMBDA p, x : p + x, 0, s)
\* least significant digit first
FromDigits(s, D) == Total([i \in 1..Len(s) |-> s[i] * Power(D, i - 1)])
\* most significant first, mixed radix
RowMajor(s, D) == FoldLeft(LAMBDA p, i : p * D[i] + s[i], 0, Iota(Len(s)))
IsDigits(s, D) == Len(s) = Len(D) /\ \A i \in 1..Len(s) : s[i] \in 0..(D[i] - 1)
Factorial(n) == Product(Iota(n))
Choose(n, p) == IF p > n THEN 0 ELSE Product([i \in 1..p |-> n - i + 1]) \div Factorial(p)
Ways(s) == FoldLeft(LAMBDA acc, i : acc * Choose(Total(SubSeq(s, i, Len(s))), s[i]), 1, Iota(Len(s)))
RECURSIVE Divisions(_, _)
Divisions(n, k) == IF k = 1 THEN {<<n>>} ELSE UNION {{<<i>> \o d : d \in Divisions(n - i, k - 1)} : i \in 0..n}
RingSum(s) == Total([i \in 1..Len(s) |-> s[i] * s[(i % Len(s)) + 1]])
Opposite(x) == CASE x = 0 -> 1 [] x = 1 -> 0 [] x = 2 -> 3 [] x = 3 -> 2      \* l r u d

(* arrays *)
Im(v) == IF v.im = <<>> THEN [i \in 1..Len(v.re) |-> 0] ELSE v.im
SameArr(x, y) == x.D = y.D /\ x.re = y.re /\ Im(x) = Im(y)
Digits(p, D) == [i \in 1..Len(D) |-> ((p - 1) \div Product(SubSeq(D, i + 1, Len(D)))) % D[i]]
At(D, ix) == 1 + RowMajor(ix, D)
Build(D, Re(_), ImF(_)) == LET n == Product(D) IN [D |-> D, re |-> [p \in 1..n |-> Re(Digits(p, D))], im |-> [p \in 1..n |-> ImF(Digits(p, D))]]
AllEq(ix) == \A i \in 1..Len(ix) : ix[i] = ix[1]
Zero(ix) == 0
Expand(v, r) == \* a list on the diagonal of an array of rank r
    IF v.D = <<>> THEN v
    ELSE Build([i \in 1..r |-> v.D[1]], LAMBDA ix : IF AllEq(ix) THEN (IF r = 0 THEN v.re[1] ELSE v.re[ix[1] + 1]) ELSE 0,
                                        LAMBDA ix : IF AllEq(ix) THEN (IF r = 0 THEN Im(v)[1] ELSE Im(v)[ix[1] + 1]) ELSE 0)
Unit(r, l) == Build([i \in 1..r |-> l], LAMBDA ix : IF AllEq(ix) THEN 1 ELSE 0, Zero)
Dag(v) == Build(<<v.D[2], v.D[1]>>, LAMBDA ix : v.re[At(v.D, <<ix[2], ix[1]>>)], LAMBDA ix : -Im(v)[At(v.D, <<ix[2], ix[1]>>)])
Times(x, y) == LET K == x.D[2]
                   r(z, i, j) == z.re[At(z.D, <<i, j>>)]
                   c(z, i, j) == Im(z)[At(z.D, <<i, j>>)]
               IN Build(<<x.D[1], y.D[2]>>,
                        LAMBDA ix : Total([k \in 1..K |-> r(x, ix[1], k - 1) * r(y, k - 1, ix[2]) - c(x, ix[1], k - 1) * c(y, k - 1, ix[2])]),
                        LAMBDA ix : Total([k \in 1..K |-> r(x, ix[1], k - 1) * c(y, k - 1, ix[2]) + c(x, ix[1], k - 1) * r(y, k - 1, ix[2])]))
\* the sum over axis x (counted from 0), the slices weighted by w
SumAxis(v, x, w) == LET D2 == DropAt(v.D, <<x>>)
                        full(ix, k) == [i \in 1..Len(v.D) |-> IF i <= x THEN ix[i] ELSE IF i = x + 1 THEN k - 1 ELSE ix[i - 1]]
                        Wr(k) == IF w.D = <<0>> THEN 1 ELSE w.re[k]
                        Wi(k) == IF w.D = <<0>> THEN 0 ELSE Im(w)[k]
                        Vr(ix, k) == v.re[At(v.D, full(ix, k))]
                        Vi(ix, k) == Im(v)[At(v.D, full(ix, k))]
                    IN Build(D2, LAMBDA ix : Total([k \in 1..(v.D[x + 1]) |-> Wr(k) * Vr(ix, k) - Wi(k) * Vi(ix, k)]),
                                 LAMBDA ix : Total([k \in 1..(v.D[x + 1]) |-> Wr(k) * Vi(ix, k) + Wi(k) * Vr(ix, k)]))
Sub(x, y) == [D |-> x.D, re |-> [p \in 1..Len(x.re) |-> x.re[p] - y.re[p]], im |-> [p \in 1..Len(x.re) |-> Im(x)[p] - Im(y)[p]]]
SquareNorm(v) == Total([p \in 1..Len(v.re) |-> v.re[p] * v.re[p] + Im(v)[p] * Im(v)[p]])
Eye(D) == Build(D, LAMBDA ix : IF ix[1] = ix[2] THEN 1 ELSE 0, Zero)
DiagOf(v) == Build(v.D, LAMBDA ix : IF ix[1] = ix[2] THEN v.re[At(v.D, ix)] ELSE 0, LAMBDA ix : IF ix[1] = ix[2] THEN Im(v)[At(v.D, ix)] ELSE 0)
Tr(v) == Build(<<v.D[2], v.D[1]>>, LAMBDA ix : v.re[At(v.D, <<ix[2], ix[1]>>)], LAMBDA ix : Im(v)[At(v.D, <<ix[2], ix[1]>>)])

RECURSIVE Steps(_, _)
Steps(t, ls) == IF ls = <<>> THEN t
                ELSE LET x == Head(ls)
                     IN Steps([n \in 0..5 |-> IF n # x[2] THEN t[n] ELSE IF x[1] = 0 THEN x[3] ELSE -1], Tail(ls))
\* the name, tensor pairs at the end, by name
Table(ls) == LET t == TLCEval(Steps([n \in 0..5 |-> -1], ls))
                 p == SelectSeq(<<0, 1, 2, 3, 4, 5>>, LAMBDA n : t[n] # -1)
             IN [i \in 1..Len(p) |-> <<p[i], t[p[i]]>>]

(* float types: the record gives how many bytes one real number has and whether there is an imaginary part *)
Prior(x, y) == <<IF x[1] > y[1] THEN x[1] ELSE y[1], IF x[2] = 1 \/ y[2] = 1 THEN 1 ELSE 0>>

(***************************************************************************)
(* What each call must answer.                                             *)
(***************************************************************************)
Good(e) ==
    CASE e.f = "listDifference"   -> e.out = Difference(e.a, e.b)
      [] e.f = "deleteAllInUsed"  -> e.out = WithoutAll(e.a, e.b)
      [] e.f = "tupleRemoveByIndex" -> e.out = DropAt(e.a, e.b)
      [] e.f = "tupleProduct"     -> e.n = Product(e.a)
      [] e.f = "spinChainProductSum" -> e.n = RingSum(e.a)
      [] e.f = "compareLists"     -> e.yes = SameBag(e.a, e.b)
      \* whether repeated elements are repeated in the answer is left open
      [] e.f = "commonElements"   -> Elems(e.out) = Elems(e.a) \cap Elems(e.b) /\ FitsIn(e.out, e.a) /\ FitsIn(e.out, e.b)
      [] e.f = "listSymmetricDifference" -> NoDup(e.out) /\ Elems(e.out) = (Elems(e.a) \ Elems(e.b)) \cup (Elems(e.b) \ Elems(e.a))
      [] e.f \in {"intToBitList", "intToBitTuple", "intToDBaseTuple"} ->
            Len(e.out) = Len(e.a) /\ IsDigits(e.out, e.a) /\ FromDigits(e.out, e.m) = e.n
      [] e.f = "library"          -> e.out = e.a
      [] e.f = "longDigits"       -> e.out = e.b
      [] e.f = "safeMod"          -> e.out[1] \in 0..(e.m - 1) /\ (e.n - e.out[1]) % e.m = 0
      [] e.f = "getIndexDict"     -> IsDigits(e.out, e.a) /\ RowMajor(e.out, e.a) = e.n
      [] e.f = "divideIntoKParts" -> NoDup(e.outs) /\ Elems(e.outs) = Divisions(e.n, e.m)
      [] e.f = "myComb"           -> e.out[1] = Choose(e.n, e.m)
      [] e.f = "calculateDivisionTimes" -> e.n = Ways(e.a)
      [] e.f = "getValidValues"   -> LET p == SelectSeq(Iota(Len(e.a)), LAMBDA i : Abs(e.a[i]) < e.m)
                                     IN e.outs = <<[i \in 1..Len(p) |-> p[i] - 1], [i \in 1..Len(p) |-> e.a[p[i]]]>>
      [] e.f = "getCutoff"        -> LET p == SelectSeq(Iota(Len(e.a)), LAMBDA i : e.a[i] < e.m)
                                     IN e.n = IF p = <<>> THEN Len(e.a) ELSE p[1] - 1
      \* reciprocals times 840
      [] e.f = "partialInverse"   -> e.out = [i \in 1..Len(e.a) |-> IF i <= e.m THEN 840 \div e.a[i] ELSE 0]
      \* everything in units of the 1000th; the answer is within the accuracy m of the border n, and asked only inside [a[1], a[2]]
      [] e.f = "binarySearch"     -> Abs(e.out[1] - e.n) <= e.m /\ e.out[1] \in (e.a[1])..(e.a[2]) /\ e.yes
      [] e.f = "getCombineSet"    -> LET u == UNION {Elems(e.ls[e.a[i]]) : i \in {j \in 1..Len(e.a) : e.a[j] <= Len(e.ls)}}
                                     IN Elems(e.out) = u /\ NoDup(e.out)
      [] e.f \in {"oppositeDirection", "oppositeSingleDirection"} -> e.out = [i \in 1..Len(e.a) |-> Opposite(e.a[i])]
      [] e.f = "getInRangeFunc"   -> e.out = [i \in 1..Len(e.a) |-> IF e.a[i] > e.n /\ e.a[i] < e.m THEN 1 ELSE 0]
      [] e.f = "tupleSwap"        -> e.out = <<e.a[2], e.a[1]>>
      [] e.f \in {"identicalTensorDict", "mapToDict"} -> Elems(e.out) = Elems(e.a) /\ NoDup(e.out) /\ e.yes
      [] e.f = "checkAllEqual"    -> e.yes = (Cardinality(Elems(e.a)) <= 1)
      [] e.f = "pairIterator"     -> e.outs = FoldLeft(LAMBDA s, i : s \o [j \in 1..(Len(e.a) - i) |-> <<e.a[i], e.a[i + j]>>], <<>>, Iota(Len(e.a)))
      [] e.f = "generateIndices"  -> e.out = Places(e.a, e.b)
      [] e.f = "indexTupleToStr"  -> e.out = e.a
      \* distances in whole units, the accuracy m lies between them
      [] e.f = "floatEqual"       -> e.yes = (Abs(e.a[1] - e.a[2]) < e.m)
      \* the accuracy is n / m
      [] e.f = "floatRelativeEqual" -> e.yes = (2 * e.m * Abs(e.a[1] - e.a[2]) < e.n * (Abs(e.a[1]) + Abs(e.a[2])) \/ (e.a[1] = 0 /\ e.a[2] = 0))
      [] e.f = "floatArrayEqual"  -> e.yes = (e.v.D = e.w.D /\ \A p \in 1..Len(e.v.re) : Abs(e.v.re[p] - e.w.re[p]) < e.m)
      [] e.f = "isRealNumber"     -> e.yes = (e.n = 1)
      [] e.f = "priorDataType"    -> e.out = Prior(e.a, e.b)
      [] e.f = "diagonalNDTensor" -> SameArr(e.arr, Expand(e.v, e.n))
      [] e.f = "ndEye"            -> SameArr(e.arr, Unit(e.n, e.m))
      [] e.f = "nonZeroElementN"  -> e.n = Cardinality({p \in 1..Len(e.v.re) : e.v.re[p] # 0 \/ Im(e.v)[p] # 0})
      [] e.f = "rightDiagonalProduct" -> SameArr(e.arr, Times(e.v, Expand(e.w, 2)))
      [] e.f = "leftDiagonalProduct"  -> SameArr(e.arr, Times(Expand(e.w, 2), e.v))
      [] e.f = "sumOnAxis"        -> SameArr(e.arr, SumAxis(e.v, e.n, e.w))
      [] e.f = "transposeConjugate" -> SameArr(e.arr, Dag(e.v))
      [] e.f = "aDaggerAProduct"  -> SameArr(e.arr, Times(Dag(e.v), e.v))
      [] e.f = "aADaggerProduct"  -> SameArr(e.arr, Times(e.v, Dag(e.v)))
      \* squares of the errors, with the square of the norm of the matrix multiplied in where they are relative
      [] e.f = "identityError"    -> e.n = SquareNorm(Sub(e.v, Eye(e.v.D)))
      [] e.f = "diagError"        -> e.n = SquareNorm(Sub(e.v, DiagOf(e.v)))
      [] e.f = "symmetricError"   -> e.n = SquareNorm(Sub(e.v, Tr(e.v)))
      [] e.f = "projectorError"   -> e.n = SquareNorm(Sub(Times(Dag(e.v), e.v), Eye(<<e.v.D[2], e.v.D[2]>>)))
      [] e.f = "matDiffError"     -> e.n = SquareNorm(Sub(e.v, e.w))
      [] e.f = "checkIdentity"    -> e.yes = (SquareNorm(Sub(e.v, Eye(e.v.D))) = 0)
      \* times the largest absolute value, whose square is m
      [] e.f = "normalizeInfinity" -> SameArr(e.arr, e.v) /\ LET Sq(p) == e.v.re[p] * e.v.re[p] + Im(e.v)[p] * Im(e.v)[p] IN (\A p \in 1..Len(e.v.re) : Sq(p) <= e.m) /\ (\E p \in 1..Len(e.v.re) : Sq(p) = e.m)
      [] e.f = "loadData"         -> SameArr(e.arr, e.v)
      [] e.f = "combineName"      -> e.yes
      \* e.n is the length asked for (0: left out), e.m the length obtained, e.yes that no known name came out
      [] e.f = "getNewString"     -> e.m = (IF e.n = 0 THEN 10 ELSE e.n) /\ e.yes
      [] e.f = "randomArray"      -> e.out = e.a /\ e.yes
      [] e.f = "tensorBase"       -> e.out = e.v.D /\ e.n = Len(e.v.D) /\ SameArr(e.arr, e.v)
      \* a table of tensors: ls lists the steps <<0, name, tensor>> (set) and <<1, name>> (delete)
      [] e.f = "tensorDict"       -> e.outs = Table(e.ls)
      [] OTHER -> FALSE

\* requests that must be refused
MustRefuse(e) ==
    CASE e.f = "getCombineSet"    -> \E i \in 1..Len(e.a) : e.a[i] > Len(e.ls)
      [] e.f \in {"oppositeDirection", "oppositeSingleDirection"} -> \E i \in 1..Len(e.a) : e.a[i] \notin 0..3
      [] e.f = "indexTupleToStr"  -> e.m = 1 \/ \E i \in 1..Len(e.a) : e.a[i] >= 26
      [] e.f = "binarySearch"     -> e.a[1] >= e.a[2]
      [] e.f = "assertInSet"      -> e.n \notin Elems(e.a)
      [] OTHER -> FALSE

HelperBad(e) ==
    IF MustRefuse(e) THEN (IF e.failed \in {"AssertionError", "ValueError"} THEN "" ELSE "invalid request accepted")
    ELSE IF e.failed # "" THEN "valid request refused: " \o e.failed
    ELSE IF e.f # "assertInSet" /\ ~Good(e) THEN "answer"
    ELSE IF ~e.same THEN "argument changed"
    ELSE ""
=============================================================================

------------------------------ MODULE Lattice ------------------------------
(***************************************************************************)
(* Partition functions of square lattices of one tensor T with legs l, r,  *)
(* u, d, as exact sums, and what the coarse-graining methods must report   *)
(* about them.                                                             *)
(***************************************************************************)
EXTENDS Ein

\* the tensor with its four legs renamed
Site(T, l, r, u, d) == [T EXCEPT !.L = MapSeq(T.L, LAMBDA x : CASE x = "l" -> l [] x = "r" -> r [] x = "u" -> u [] x = "d" -> d)]
S2(a, x, y) == a \o ToString(x) \o "," \o ToString(y)
Scalar(v) == v.re[1]

(***************************************************************************)
(* L x L sites with the legs on the boundary summed.                       *)
(***************************************************************************)
OpenSites(T, W, H) == TLCEval([k \in 1..(W * H) |->
    LET x == (k - 1) % W
        y == (k - 1) \div W
    IN Site(T, S2("h", x, y), S2("h", x + 1, y), S2("v", x, y + 1), S2("v", x, y))])
OpenZ(T, W, H) == Scalar(EinsumSeq(OpenSites(T, W, H), <<>>))

\* a corner of k x k sites: the legs of its left and lower boundary summed, the others fused row-major
CornerOpen(T, k) == LET out == [i \in 1..(2 * k) |-> IF i <= k THEN S2("v", i - 1, k) ELSE S2("h", k, i - k - 1)]
                    IN EinsumSeq(OpenSites(T, k, k), out)

(***************************************************************************)
(* Periodic lattices: n sites, right[s] and up[s] the neighbours of s, and *)
(* one tensor for every site.                                              *)
(***************************************************************************)
Delta(a, b, D) == [L |-> <<a, b>>, D |-> <<D, D>>, re |-> [i \in 1..(D * D) |-> IF (i - 1) \div D = (i - 1) % D THEN 1 ELSE 0], im |-> <<>>]
PeriodicTerms(Ts, right, up) ==
    LET n == Len(Ts)
        h(s) == "h" \o ToString(s)
        v(s) == "v" \o ToString(s)
        Into(f, s) == CHOOSE q \in 1..n : f[q] = s
        One(s) == LET l == Into(right, s)
                      d == Into(up, s)
                      \* a site that is its own neighbour meets itself through an identity
                      hl == IF l = s THEN h(s) \o "'" ELSE h(l)
                      vd == IF d = s THEN v(s) \o "'" ELSE v(d)
                  IN <<Site(Ts[s], hl, h(s), v(s), vd)>>
                     \o (IF l = s THEN <<Delta(h(s) \o "'", h(s), DimOf(Ts[s], "l"))>> ELSE <<>>)
                     \o (IF d = s THEN <<Delta(v(s) \o "'", v(s), DimOf(Ts[s], "d"))>> ELSE <<>>)
    IN TLCEval(FoldLeft(LAMBDA a, s : a \o One(s), <<>>, Iota(n)))
PeriodicZ(Ts, right, up) == Scalar(EinsumSeq(PeriodicTerms(Ts, right, up), <<>>))

\* W x H torus
TorusRight(W, H) == [s \in 1..(W * H) |-> LET x == (s - 1) % W IN s - x + ((x + 1) % W)]
TorusUp(W, H) == [s \in 1..(W * H) |-> ((s - 1 + W) % (W * H)) + 1]
TorusZ(T, W, H) == PeriodicZ([s \in 1..(W * H) |-> T], TorusRight(W, H), TorusUp(W, H))

\* the plane modulo (1 + i)^n: for even n a square torus, for odd n its diagonal twin.
\* Sites are (x, y) with 0 <= x < 2 m, 0 <= y < m modulo (2m, 0) and (m, m) when n = 2k + 1, m = 2^k
Pow2(k) == FoldLeft(LAMBDA a, i : 2 * a, 1, Iota(k))
DiagRight(m) == [s \in 1..(2 * m * m) |-> LET x == (s - 1) % (2 * m) IN s - x + ((x + 1) % (2 * m))]
DiagUp(m) == [s \in 1..(2 * m * m) |->
                LET x == (s - 1) % (2 * m)
                    y == (s - 1) \div (2 * m)
                IN IF y + 1 < m THEN s + 2 * m ELSE ((x + m) % (2 * m)) + 1]
TwistedZ(T, n) == IF n % 2 = 0 THEN TorusZ(T, Pow2(n \div 2), Pow2(n \div 2))
                  ELSE LET m == Pow2(n \div 2) IN PeriodicZ([s \in 1..(2 * m * m) |-> T], DiagRight(m), DiagUp(m))

(***************************************************************************)
(* Moments: W x H torus in which orders k(s) with sum i are distributed    *)
(* over the sites, T[k + 1] standing at a site with order k:               *)
(*     M(i) = sum over k of multinomial(i; k) Z(k)                         *)
(* is (number of sites)^i times the observable times Z.                    *)
(***************************************************************************)
Fact(n) == FoldLeft(LAMBDA a, i : a * i, 1, Iota(n))
Moment(Ts, i, W, H) ==
    LET n == W * H
        ks == {k \in [1..n -> 0..i] : SumSeq(k) = i}
        mult(k) == Fact(i) \div FoldLeft(LAMBDA a, s : a * Fact(k[s]), 1, Iota(n))
        one(k) == mult(k) * PeriodicZ([s \in 1..n |-> Ts[k[s] + 1]], TorusRight(W, H), TorusUp(W, H))
    IN SumSeq(MapSeq(SetToSeq(ks), one))

(***************************************************************************)
(* Records.  Numbers reported are rounded to integers: q.z with q.near     *)
(* telling that the number was one.                                        *)
(***************************************************************************)
Agrees(q, z) == q.near /\ LET d == Abs(q.z - z) IN d <= 1 + Abs(z) \div 1000000 /\ (Abs(z) < 1000000 => d = 0)

Symmetric(T) == \A f \in {<<"r", "l", "u", "d">>, <<"l", "r", "d", "u">>} :
                    LET S == Site(T, f[1], f[2], f[3], f[4]) IN Permute(S, T.L).re = T.re

\* corner transfer matrices: calls [L, res] in the order made; L = 0 is a bare step.
\* e.rank[k]: rank of the exact corner of k x k sites
CtmBad(e) ==
    IF ~Symmetric(e.T) THEN "tensor not symmetric (harness)"
    ELSE LET sizes == {e.calls[i].L : i \in 1..Len(e.calls)} \ {0}
             Z == TLCEval([L \in sizes |-> OpenZ(e.T, L, L)])
             \* the bonds kept at step k also cut edges which do not end in this corner later: only complete bases do no harm
             whole(k) == \A x \in {"r", "u"} : e.rank[k] = FoldLeft(LAMBDA a, i : a * DimOf(e.T, x), 1, Iota(k))
             fits(L) == \A k \in 1..(L \div 2) : e.rank[k] <= e.chi /\ (k < L \div 2 => whole(k))
         IN IF e.failed # "" THEN "valid request refused: " \o e.failed
            ELSE IF \E i \in 1..Len(e.calls) : e.calls[i].L # 0 /\ fits(e.calls[i].L) /\ ~Agrees(e.calls[i].res, Z[e.calls[i].L])
                 THEN "partition function of size " \o ToString(e.calls[CHOOSE i \in 1..Len(e.calls) : e.calls[i].L # 0 /\ fits(e.calls[i].L) /\ ~Agrees(e.calls[i].res, Z[e.calls[i].L])].L)
            ELSE IF \E i, j \in 1..Len(e.calls) : e.calls[i].L = e.calls[j].L /\ e.calls[i].L # 0 /\ e.calls[i].digits # e.calls[j].digits
                 THEN "the answer depends on the history"
            ELSE IF ~e.same THEN "given tensor changed" ELSE ""

\* TRG of one tensor: after k steps the twisted torus of 2^k sites
TrgBad(e) ==
    IF e.failed # "" THEN "valid request refused: " \o e.failed
    ELSE LET steps == Len(e.rank)
             fits(k) == \A i \in 1..k : e.rank[i] <= e.chi
             bad == {k \in 0..steps : fits(k) /\ k <= e.upto /\ ~Agrees(e.z[k + 1], TwistedZ(e.T, k))}
         IN IF Len(e.z) # steps + 1 \/ e.counts # <<steps + 1, steps + 1, steps>> THEN "one entry per step"
            ELSE IF e.dof # [k \in 1..(steps + 1) |-> e.dof0 * Pow2(k - 1)] THEN "number of sites"
            ELSE IF bad # {} THEN "free energy after " \o ToString(CHOOSE k \in bad : TRUE) \o " steps"
            ELSE IF ~e.same THEN "given tensor changed" ELSE ""

\* HOTRG: e.dirs says which way each step went
Tall(dirs, k) == Pow2(Cardinality({i \in 1..k : dirs[i] \in {"l", "r"}}))
Wide(dirs, k) == Pow2(Cardinality({i \in 1..k : dirs[i] \in {"u", "d"}}))
HotrgBad(e) ==
    IF e.failed # "" THEN "valid request refused: " \o e.failed
    ELSE LET steps == Len(e.dirs)
             fits(k) == \A i \in 1..k : IF e.dirs[i] \in {"l", "r"} THEN e.h[i] * e.h[i] <= e.chiH ELSE e.v[i] * e.v[i] <= e.chiV
             \* dimensions before step i are e.h[i], e.v[i]
             bad == {k \in 0..steps : fits(k) /\ k <= e.upto /\ ~Agrees(e.z[k + 1], TorusZ(e.T, Wide(e.dirs, k), Tall(e.dirs, k)))}
             \* impurities stay exact while the projectors are complete
             whole(k) == \A i \in 1..k : e.kept[i] = (IF e.dirs[i] \in {"l", "r"} THEN e.h[i] * e.h[i] ELSE e.v[i] * e.v[i])
             mom(k, i) == Moment(e.imp, i, Wide(e.dirs, k), Tall(e.dirs, k))
         IN IF e.counts # <<steps + 1, steps + 1, steps, steps, steps>> \/ Len(e.z) # steps + 1 THEN "one entry per step"
            ELSE IF \E i \in 1..steps : e.dirs[i] \notin {"l", "r", "u", "d"} THEN "direction"
            ELSE IF e.dof # [k \in 1..(steps + 1) |-> e.dof0 * Pow2(k - 1)] THEN "number of sites"
            ELSE IF \E i \in 1..steps : e.kept[i] > (IF e.dirs[i] \in {"l", "r"} THEN e.chiH ELSE e.chiV) THEN "more than chi directions kept"
            ELSE IF bad # {} THEN "free energy after " \o ToString(CHOOSE k \in bad : TRUE) \o " steps"
            ELSE IF e.imp # <<>> /\ (Len(e.obs) # steps + 1 \/ \E k \in 1..Len(e.obs) : Len(e.obs[k]) # Len(e.imp)) THEN "one list of observables per step"
            ELSE IF e.imp # <<>> /\ \E k \in 0..steps : fits(k) /\ whole(k) /\ k <= e.iupto /\ \E i \in 1..Len(e.imp) : ~Agrees(e.obs[k + 1][i], mom(k, i - 1))
                 THEN "observables"
            ELSE IF ~e.same THEN "given tensor changed" ELSE ""

\* monomers and dimers with weight alpha^2 per dimer, before any step and the shape of the archives after
TriangleBad(e) ==
    IF e.failed # "" THEN "valid request refused: " \o e.failed
    ELSE IF e.counts # <<e.steps + 1, e.steps + 1, e.steps + 1, e.steps + 1, e.steps>> THEN "one entry per step"
    ELSE IF e.dof # [k \in 1..(e.steps + 1) |-> FoldLeft(LAMBDA a, i : 3 * a, 1, Iota(k - 1))] THEN "number of sites"
    ELSE IF ~Agrees(e.z0, e.den * e.den + 3 * e.num * e.num) THEN "free energy before any step"
    ELSE ""

LatticeBad(e) == CASE e.op = "ctm" -> CtmBad(e)
                   [] e.op = "trg" -> TrgBad(e)
                   [] e.op = "hotrg" -> HotrgBad(e)
                   [] e.op = "triangle" -> TriangleBad(e)
=============================================================================

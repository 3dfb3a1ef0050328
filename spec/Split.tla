------------------------------- MODULE Split -------------------------------
(***************************************************************************)
(* Splitting a product into factors over a new bond of bounded dimension:  *)
(* merge with chi, Schmidt and singular value decompositions, projectors   *)
(* from an environment matrix.                                             *)
(*                                                                         *)
(* What the best approximation of a matrix is, is given by a certificate   *)
(* c = [U, V, s]: U and V are Gaussian-integer matrices with mutually      *)
(* orthogonal columns, s positive integers, the matrix being               *)
(*      M[x, y] = sum over i of s[i] U[x, i] V[y, i]    (V unconjugated)   *)
(* Its singular values are then sqrt(Strength(c, i)) and the sum of the    *)
(* first k terms is the best approximation of rank k (Eckart-Young; the    *)
(* model MCSplit compares it with all small integer matrices).  The        *)
(* certificate is itself checked against the data of the tensors.          *)
(*                                                                         *)
(* Results of the library are in fixed point: entries times Scale.         *)
(***************************************************************************)
EXTENDS Observed

Scale == 1000
Tol == 5
Near(x, y) == x - y <= Tol /\ y - x <= Tol

RankOf(c) == Len(c.s)
ColDot(M, D, i, j) == \* inner product of columns i and j of the matrix value M with n rows and r columns
    LET n == Prod(D) \div D[Len(D)]
        r == D[Len(D)]
        P(x, k) == (x - 1) * r + k
        Cj(x, k) == <<M.re[P(x, k)], 0 - ImAt(M, P(x, k))>>
        Nm(x, k) == <<M.re[P(x, k)], ImAt(M, P(x, k))>>
    IN FoldLeft(LAMBDA a, x : LET q == CMul(Cj(x, i), Nm(x, j)) IN <<a[1] + q[1], a[2] + q[2]>>, <<0, 0>>, Iota(n))
ColNorm2(M, i) == ColDot(M, M.D, i, i)[1]
Orthogonal(M) == \A i, j \in 1..M.D[Len(M.D)] : i # j => ColDot(M, M.D, i, j) = <<0, 0>>
Strengths(c) == TLCEval([i \in 1..Len(c.s) |-> c.s[i] * c.s[i] * ColNorm2(c.U, i) * ColNorm2(c.V, i)])

\* sum of the first k terms, as a value with the row legs and the column legs
Partial(c, k) ==
    LET rl == SubSeq(c.U.L, 1, Len(c.U.L) - 1)
        cl == SubSeq(c.V.L, 1, Len(c.V.L) - 1)
        inner == c.U.L[Len(c.U.L)]
        w == [L |-> <<inner>>, D |-> <<Len(c.s)>>, re |-> TLCEval([i \in 1..Len(c.s) |-> IF i <= k THEN c.s[i] ELSE 0]), im |-> <<>>]
    IN Einsum(<<c.U, w, c.V>>, rl \o cl)

\* c is a certificate of the value M, whose rows are the legs of c.U but the last
Certifies(c, M) ==
    LET q == Strengths(c)
    IN /\ Len(c.s) = c.U.D[Len(c.U.D)] /\ Len(c.s) = c.V.D[Len(c.V.D)]
       /\ \A i \in 1..Len(c.s) : q[i] > 0 /\ (i > 1 => q[i] < q[i - 1])
       /\ Orthogonal(c.U) /\ Orthogonal(c.V)
       /\ SameValue(Partial(c, Len(c.s)), M)

\* fixed-point array f (with labels) against an exact value
Close(f, v) == /\ IsPerm(f.L, v.L)
               /\ \A x \in Rng(v.L) : DimOf(f, x) = DimOf(v, x)
               /\ LET u == Permute(v, f.L)
                  IN \A p \in 1..Len(f.re) : Near(f.re[p], Scale * u.re[p]) /\ Near(ImAt(f, p), Scale * ImAt(u, p))
IsIdentity(g, n) == /\ Len(g.re) = n * n
                    /\ \A i, j \in 1..n : /\ Near(g.re[(i - 1) * n + j], IF i = j THEN Scale ELSE 0)
                                          /\ Near(ImAt(g, (i - 1) * n + j), 0)

Min2(a, b) == IF a < b THEN a ELSE b

(***************************************************************************)
(* Pairs: merge with a bound chi, Schmidt decomposition of a linked pair.  *)
(* An event carries pre and post (snapshots), a, b (the pair), u, v and    *)
(* perhaps m (the factors), and the product of the factors, whose legs are *)
(* called 1x on u and 2x on v.                                             *)
(***************************************************************************)
HeapOf(snap) == SnapHeap([snap |-> snap])
Swapped(e, id, l) == (id = e.a /\ l \in Rng(e.swapA)) \/ (id = e.b /\ l \in Rng(e.swapB))
SideOf(e, id, l) == IF (id = e.a) # Swapped(e, id, l) THEN e.u ELSE e.v
Outer(H, e, id) == LET o == IF id = e.a THEN e.b ELSE e.a
                   IN SelectSeq(H[id].L, LAMBDA l : PAt(H[id], l)[1] # o)
\* surviving legs of the pair, as <<tensor, name>>
Survivors(H, e) == MapSeq(Outer(H, e, e.a), LAMBDA l : <<e.a, l>>) \o MapSeq(Outer(H, e, e.b), LAMBDA l : <<e.b, l>>)
LegsOn(H, e, side) == SelectSeq(Survivors(H, e), LAMBDA p : SideOf(e, p[1], p[2]) = side)
SideDim(H, e, side) == Prod(MapSeq(LegsOn(H, e, side), LAMBDA p : DAt(H[p[1]], p[2])))
Mark(e, side) == IF side = e.u THEN "1" ELSE "2"

\* exact product of the pair, with legs marked by the side on which they end up
PairValue(H, e) ==
    LET shared == SharedLabels(H, e.a, e.b)
        nmA(l) == IF l \in Rng(shared) THEN "s" \o l ELSE Mark(e, SideOf(e, e.a, l)) \o l
        nmB(l) == LET p == PAt(H[e.b], l) IN IF p[1] = e.a THEN "s" \o p[2] ELSE Mark(e, SideOf(e, e.b, l)) \o l
    IN Einsum(<<Relabel(Val(H[e.a]), nmA), Relabel(Val(H[e.b]), nmB)>>,
              MapSeq(Survivors(H, e), LAMBDA p : Mark(e, SideOf(e, p[1], p[2])) \o p[2]))

SharedDim(H, e) == Prod(MapSeq(SharedLabels(H, e.a, e.b), LAMBDA l : DAt(H[e.a], l)))
\* the dimension a pair of full rank must get; chi = 0 means no bound
FullDim(H, e) == IF e.chi = 0 THEN SharedDim(H, e)
                 ELSE Min2(Min2(e.chi, SharedDim(H, e)), Min2(SideDim(H, e, e.u), SideDim(H, e, e.v)))

InnerOf(G, H, e, side) == SelectSeq(G[side].L, LAMBDA l : ~\E p \in Rng(LegsOn(H, e, side)) : p[2] = l)

\* admissible names of the new bond at u and v
NamesOk(H, e, nu, nv) ==
    LET shared == SharedLabels(H, e.a, e.b)
        other(l) == PAt(H[e.a], l)[2]
    IN IF e.op = "schmidt" THEN \E l \in Rng(shared) : nu = l /\ nv = other(l)
       ELSE IF e.name # "" THEN nu = e.name /\ nv = e.name
       ELSE \E o \in SetToSeqs(1..Len(shared)) : /\ nu = Join(MapSeq(o, LAMBDA i : shared[i]), "|")
                                                 /\ nv = Join(MapSeq(o, LAMBDA i : other(shared[i])), "|")

PairBad(e) ==
    LET H == TLCEval(HeapOf(e.pre))
        G == TLCEval(HeapOf(e.post))
        like == IsLike(H[e.a])
        others == DOMAIN H \ {e.a, e.b}
        factors == {e.u, e.v} \cup (IF e.m = "" THEN {} ELSE {e.m})
        g(p) == IF p # Free /\ p[1] \in {e.a, e.b} THEN <<SideOf(e, p[1], p[2]), p[2]>> ELSE p
    IN IF e.failed # "" THEN "valid request rejected: " \o e.failed
       ELSE IF \E i \in 1..Len(e.post) : ~SnapSane(e.post[i]) THEN "legs, shape, data and owner disagree"
       ELSE IF ~Consistent(G) THEN "bonds or legs inconsistent"
       ELSE IF DOMAIN G # others \cup factors THEN "live tensors"
       ELSE IF \E x \in factors : e.like[x] # like THEN "kind of the factors"
       ELSE IF \E x \in others : ~SameLegs(H[x], G[x]) \/ ~SameEntries(H[x], G[x]) THEN "bystander changed"
       ELSE IF \E x \in others : \E l \in Rng(H[x].L) : PAt(G[x], l) # g(PAt(H[x], l)) THEN "bond of a bystander"
       ELSE IF \E side \in {e.u, e.v} : \E p \in Rng(LegsOn(H, e, side)) :
                 ~(Has(G[side], p[2]) /\ DAt(G[side], p[2]) = DAt(H[p[1]], p[2]) /\ PAt(G[side], p[2]) = g(PAt(H[p[1]], p[2])))
            THEN "surviving legs"
       ELSE IF Len(InnerOf(G, H, e, e.u)) # 1 \/ Len(InnerOf(G, H, e, e.v)) # 1 THEN "one new bond"
       ELSE LET nu == InnerOf(G, H, e, e.u)[1]
                nv == InnerOf(G, H, e, e.v)[1]
                d == DAt(G[e.u], nu)
                pu == PAt(G[e.u], nu)
                pv == PAt(G[e.v], nv)
            IN IF e.m = "" /\ pu # <<e.v, nv>> THEN "new bond joins the factors"
               ELSE IF e.m # "" /\ ~(pu[1] = e.m /\ pv[1] = e.m /\ pu # pv /\ Len(G[e.m].L) = 2 /\ e.mdiag) THEN "new bonds join the factors"
               ELSE IF ~NamesOk(H, e, nu, nv) THEN "names of the new bond"
               ELSE IF e.chi # 0 /\ d > e.chi THEN "new bond exceeds chi"
               ELSE IF like THEN (IF d = FullDim(H, e) THEN "" ELSE "dimension of the shape-only bond")
               ELSE LET c == e.cert
                        X == TLCEval(PairValue(H, e))
                        full == RankOf(c) = Min2(SharedDim(H, e), Min2(SideDim(H, e, e.u), SideDim(H, e, e.v)))
                        k == IF e.chi = 0 THEN RankOf(c) ELSE Min2(e.chi, RankOf(c))
                    IN IF ~Certifies(c, X) THEN "certificate does not fit (harness)"
                       ELSE IF (full \/ e.chi = 0) /\ d # FullDim(H, e) THEN "dimension of the new bond differs from the shape-only one"
                       ELSE IF ~Close(e.prod, Partial(c, k)) THEN "product of the factors"
                       ELSE IF e.m # "" /\ ~(IsIdentity(e.gramU, d) /\ IsIdentity(e.gramV, d)) THEN "factors are no isometries"
                       ELSE ""

(***************************************************************************)
(* Matrices.  e.cert certifies the matrix; e.k is the number of columns    *)
(* kept.                                                                   *)
(***************************************************************************)
Power(q, order) == IF order = 2 THEN q ELSE IF order = 4 THEN q * q ELSE q
SumTo(f, lo, hi) == FoldLeft(LAMBDA a, i : a + f[i], 0, [i \in 1..(hi - lo + 1) |-> lo + i - 1])
\* error reported (times a million) against the ratio of discarded to all
ErrOk(err, c, chi, order) ==
    LET q == Strengths(c)
        w == TLCEval([i \in 1..Len(q) |-> IF order = 1 THEN c.root[i] ELSE Power(q[i], order)])
        all == SumTo(w, 1, Len(w))
        lost == SumTo(w, chi + 1, Len(w))
    IN /\ (order = 1 => \A i \in 1..Len(q) : c.root[i] * c.root[i] = q[i])
       \* |err/10^6 - lost/all| small, by long division to stay within TLC's integers
       /\ LET a == (lost * 1000) \div all
              b == (((lost * 1000) % all) * 1000) \div all
          IN Abs(err - (1000 * a + b)) <= 3

MatVal(e) == [L |-> <<"r", "c">>, D |-> e.mat.D, re |-> e.mat.re, im |-> e.mat.im]
SvdBad(e) ==
    IF e.failed # "" THEN "valid request rejected: " \o e.failed
    ELSE IF ~Certifies(e.cert, MatVal(e)) THEN "certificate does not fit (harness)"
    ELSE IF e.k > e.chi THEN "more than chi values kept"
    ELSE IF ~Close(e.prod, Partial(e.cert, Min2(e.chi, RankOf(e.cert)))) THEN "product of the factors"
    ELSE IF e.sv /\ ~IsIdentity(e.gramU, e.k) THEN "left factor is no isometry"
    ELSE IF e.sv /\ ~IsIdentity(e.gramV, e.k) THEN "right factor is no isometry"
    ELSE IF e.sv /\ ~\A i \in 1..e.k : Abs(e.vals[i] - (IF i <= RankOf(e.cert) THEN Strengths(e.cert)[i] ELSE 0)) <= 0 THEN "singular values"
    ELSE IF ~ErrOk(e.err, e.cert, e.chi, e.order) THEN "reported error"
    ELSE ""

\* splitting a tensor: e.rows, e.cols, which of them were given, and the labels of the factors
TsvdBad(e) ==
    LET H == TLCEval(HeapOf(e.pre))
        G == TLCEval(HeapOf(e.post))
        t == H[e.a]
        orders(ls, given) == IF given THEN {ls} ELSE {TLCEval(MapSeq(o, LAMBDA i : ls[i])) : o \in SetToSeqs(1..Len(ls))}
        rs == {o \in orders(e.rows, e.rgiven) : Join(o, "|") \in Rng(e.uL)}
        cs == {o \in orders(e.cols, e.cgiven) : Join(o, "|") \in Rng(e.vL)}
    IN IF IsLike(t) THEN (IF e.failed = "" THEN "shape-only tensor accepted" ELSE "")
       ELSE IF e.failed # "" THEN "valid request rejected: " \o e.failed
       ELSE IF HeapDiff(H, G) # "" THEN "input changed: " \o HeapDiff(H, G)
       ELSE IF rs = {} \/ cs = {} THEN "labels of the factors"
       ELSE LET ro == CHOOSE o \in rs : TRUE
                co == CHOOSE o \in cs : TRUE
                rn == Join(ro, "|")
                cn == Join(co, "|")
                iu == IF e.inner = <<>> THEN "inner:" \o rn ELSE e.inner[1]
                iv == IF e.inner = <<>> THEN "inner:" \o cn ELSE e.inner[2]
                X == TLCEval(AsMatrix(Val(t), ro, co))
                R == Prod(MapSeq(ro, LAMBDA l : DAt(t, l)))
                C == Prod(MapSeq(co, LAMBDA l : DAt(t, l)))
                M == [L |-> <<"r", "c">>, D |-> <<R, C>>, re |-> X.re, im |-> X.im]
                cert == IF ro = e.rows /\ co = e.cols THEN e.cert ELSE e.cert
                Mc == TLCEval(AsMatrix(Val(t), e.rows, e.cols))
                Best == TLCEval(Partial(e.cert, Min2(e.chi, RankOf(e.cert))))
                \* the best approximation as a tensor, then as the matrix the library chose
                Bt == [L |-> e.rows \o e.cols, D |-> MapSeq(e.rows \o e.cols, LAMBDA l : DAt(t, l)), re |-> Best.re, im |-> Best.im]
                Bm == TLCEval(AsMatrix(Bt, ro, co))
            IN IF ~Certifies(e.cert, [L |-> <<"r", "c">>, D |-> <<R, C>>, re |-> Mc.re, im |-> Mc.im]) THEN "certificate does not fit (harness)"
               ELSE IF ~(IsPerm(e.uL, <<rn, iu>>) /\ IsPerm(e.vL, <<iv, cn>>) /\ IsPerm(e.sL, <<rn, cn>>)) THEN "labels of the factors"
               ELSE IF e.k > e.chi THEN "more than chi values kept"
               ELSE IF ~Close(e.prod, [L |-> <<"r", "c">>, D |-> <<R, C>>, re |-> Bm.re, im |-> Bm.im]) THEN "product of the factors"
               ELSE IF ~(IsIdentity(e.gramU, e.k) /\ IsIdentity(e.gramV, e.k)) THEN "factors are no isometries"
               ELSE IF ~\A i \in 1..e.k : Abs(e.vals[i] - (IF i <= RankOf(e.cert) THEN Strengths(e.cert)[i] ELSE 0)) <= 0 THEN "singular values"
               ELSE IF ~ErrOk(e.err, e.cert, e.chi, e.order) THEN "reported error"
               ELSE ""

\* projector of an environment matrix: the eigenvectors of the chi largest eigenvalues, in
\* descending order.  The matrix is sum of s[i] U[x, i] conj(U[y, i]); its eigenvalues are s[i] |U_i|^2
EnvBad(e) ==
    LET c == e.cert
        lam == TLCEval([i \in 1..Len(c.s) |-> c.s[i] * ColNorm2(c.U, i)])
        all == SumTo(lam, 1, Len(lam))
        k == Min2(e.chi, Len(c.s))
        lost == SumTo(lam, k + 1, Len(lam))
    IN IF e.failed # "" THEN "valid request rejected: " \o e.failed
       ELSE IF ~(Orthogonal(c.U) /\ \A i \in 2..Len(lam) : lam[i] < lam[i - 1]) THEN "certificate does not fit (harness)"
       ELSE IF ~SameValue(Partial(c, Len(c.s)), MatVal(e)) THEN "certificate does not fit (harness)"
       ELSE IF e.k # k THEN "number of directions kept"
       ELSE IF ~IsIdentity(e.gramU, e.k) THEN "projector is no isometry"
       \* e.prod is P diag(lam) P^dagger computed from the columns returned, in their order
       ELSE IF ~Close(e.prod, Partial(c, k)) THEN "projector does not keep the largest eigenvalues in order"
       ELSE IF Abs(e.err - (1000 * ((lost * 1000) \div all) + ((((lost * 1000) % all) * 1000) \div all))) > 3 THEN "reported error"
       ELSE ""

\* decomposition of a vector or matrix over one index of dimension dim
MschmidtBad(e) ==
    IF e.failed # "" THEN "valid request rejected: " \o e.failed
    ELSE IF ~Certifies(e.cert, MatVal(e)) THEN "certificate does not fit (harness)"
    ELSE IF e.chi # 0 /\ e.k > e.chi THEN "more than chi values kept"
    ELSE IF ~IsIdentity(e.gramU, e.k) THEN "left factor is no isometry"
    ELSE IF ~Close(e.prod, Partial(e.cert, IF e.chi = 0 THEN RankOf(e.cert) ELSE Min2(e.chi, RankOf(e.cert)))) THEN "product of the factors"
    ELSE ""

\* isIsometry(tensor, labels): summing over labels gives the identity on the other legs
IsoBad(e) ==
    LET H == TLCEval(HeapOf(e.pre))
        G == TLCEval(HeapOf(e.post))
        t == H[e.a]
        rest == Without(t.L, Rng(e.labels))
        n == Prod(MapSeq(rest, LAMBDA l : DAt(t, l)))
        v == TLCEval(Permute(Val(t), rest \o e.labels))
        m == Prod(MapSeq(e.labels, LAMBDA l : DAt(t, l)))
        Row(i, j) == FoldLeft(LAMBDA a, x : LET q == CMul(<<v.re[(i - 1) * m + x], ImAt(v, (i - 1) * m + x)>>,
                                                          <<v.re[(j - 1) * m + x], 0 - ImAt(v, (j - 1) * m + x)>>)
                                            IN <<a[1] + q[1], a[2] + q[2]>>, <<0, 0>>, Iota(m))
        Off(i, j) == LET q == Row(i, j) d == IF i = j THEN 1 ELSE 0 IN (q[1] - d) * (q[1] - d) + q[2] * q[2]
        err2 == SumSeq([x \in 1..(n * n) |-> Off(1 + (x - 1) \div n, 1 + ((x - 1) % n))])
        \* within the tolerance h / 2 (h = 0: the usual, tiny one, which a stretch by a millionth exceeds)
        iso == IF e.h = 0 THEN err2 = 0 /\ ~e.stretch ELSE 4 * err2 < e.h * e.h
    IN IF e.failed # "" THEN (IF Rng(e.labels) \subseteq Rng(t.L) THEN "valid request rejected: " \o e.failed ELSE "")
       ELSE IF ~(Rng(e.labels) \subseteq Rng(t.L)) THEN "unknown label accepted"
       ELSE IF HeapDiff(H, G) # "" THEN "input changed: " \o HeapDiff(H, G)
       ELSE IF IsLike(t) THEN ""
       ELSE IF e.ret # iso THEN "answer" ELSE ""

RecordBad(e) == CASE e.op \in {"merge", "schmidt"} -> PairBad(e)
                  [] e.op = "svd" -> SvdBad(e)
                  [] e.op = "tsvd" -> TsvdBad(e)
                  [] e.op = "env" -> EnvBad(e)
                  [] e.op = "mschmidt" -> MschmidtBad(e)
                  [] e.op = "iso" -> IsoBad(e)
=============================================================================

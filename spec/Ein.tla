-------------------------------- MODULE Ein --------------------------------
(***************************************************************************)
(* The mathematical meaning of a tensor, independent of how CTL stores it. *)
(*                                                                         *)
(* A value is a record [L, D, re, im]: L is the sequence of (distinct)     *)
(* index names, D their dimensions, and re/im the row-major sequences of   *)
(* the real and imaginary parts (im = <<>> stands for "all zero", so that  *)
(* equal tensors with equal L are equal records).  Entries are integers:   *)
(* the drivers use Gaussian-integer data, on which floating point          *)
(* arithmetic is exact, so equality is the right comparison.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Rng(s) == {s[i] : i \in 1..Len(s)}
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
IsPerm(s, t) == Len(s) = Len(t) /\ Distinct(s) /\ Rng(s) = Rng(t)
Without(s, S) == SelectSeq(s, LAMBDA x : x \notin S)
MapSeq(s, F(_)) == TLCEval([i \in 1..Len(s) |-> F(s[i])])
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Prod(D) == FoldLeft(LAMBDA a, b : a * b, 1, D)
Iota(n) == [i \in 1..n |-> i]
Abs(x) == IF x < 0 THEN -x ELSE x

\* row-major strides of a shape
RECURSIVE StridesFrom(_, _)
StridesFrom(D, i) == IF i > Len(D) THEN <<>>
                     ELSE <<Prod(SubSeq(D, i + 1, Len(D)))>> \o StridesFrom(D, i + 1)
Strides(D) == StridesFrom(D, 1)

\* the offset, in a tensor with labels L and strides S, that position p of the
\* row-major space (names N, dims E, strides F) contributes
Offset(p, N, E, F, L, S) ==
    FoldLeft(LAMBDA acc, i : IF N[i] \in Rng(L)
                             THEN acc + ((p \div F[i]) % E[i]) * S[IndexOf(L, N[i])]
                             ELSE acc, 0, Iota(Len(N)))

AllZero(s) == \A i \in 1..Len(s) : s[i] = 0
Canon(v) == IF v.im # <<>> /\ AllZero(v.im) THEN [v EXCEPT !.im = <<>>] ELSE v
ImAt(v, i) == IF v.im = <<>> THEN 0 ELSE v.im[i]

DimOf(v, l) == v.D[IndexOf(v.L, l)]
\* dimension of index name x, looked up in the first term that has it
DimIn(terms, x) == LET k == CHOOSE i \in 1..Len(terms) : x \in Rng(terms[i].L)
                   IN DimOf(terms[k], x)

CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>

(***************************************************************************)
(* Einstein summation: multiply all the terms, keep the index names out in *)
(* that order, sum over every other index name.                            *)
(***************************************************************************)
Einsum(terms, out) ==
    LET names == UNION {Rng(terms[i].L) : i \in 1..Len(terms)}
        sumN  == TLCEval(SetToSeq(names \ Rng(out)))
        outD  == TLCEval(MapSeq(out, LAMBDA x : DimIn(terms, x)))
        sumD  == TLCEval(MapSeq(sumN, LAMBDA x : DimIn(terms, x)))
        outF  == TLCEval(Strides(outD))
        sumF  == TLCEval(Strides(sumD))
        nO    == Prod(outD)
        nS    == Prod(sumD)
        T     == 1..Len(terms)
        strd  == TLCEval([t \in T |-> Strides(terms[t].D)])
        offO  == TLCEval([t \in T |-> [p \in 1..nO |-> 1 + Offset(p - 1, out, outD, outF, terms[t].L, strd[t])]])
        offS  == TLCEval([t \in T |-> [p \in 1..nS |-> Offset(p - 1, sumN, sumD, sumF, terms[t].L, strd[t])]])
        real  == \A t \in T : terms[t].im = <<>>
        tseq  == Iota(Len(terms))
        sseq  == TLCEval(Iota(nS))
        TermR(o, s) == FoldLeft(LAMBDA a, t : a * terms[t].re[offO[t][o] + offS[t][s]], 1, tseq)
        TermC(o, s) == FoldLeft(LAMBDA a, t : CMul(a, <<terms[t].re[offO[t][o] + offS[t][s]],
                                                        ImAt(terms[t], offO[t][o] + offS[t][s])>>),
                                <<1, 0>>, tseq)
        EntryC(o) == FoldLeft(LAMBDA a, s : LET q == TermC(o, s) IN <<a[1] + q[1], a[2] + q[2]>>,
                              <<0, 0>>, sseq)
    IN IF real
       THEN [L |-> out, D |-> outD,
             re |-> TLCEval([o \in 1..nO |-> FoldLeft(LAMBDA a, s : a + TermR(o, s), 0, sseq)]),
             im |-> <<>>]
       ELSE LET E == TLCEval([o \in 1..nO |-> EntryC(o)])
            IN Canon([L |-> out, D |-> outD,
                      re |-> TLCEval([o \in 1..nO |-> E[o][1]]),
                      im |-> TLCEval([o \in 1..nO |-> E[o][2]])])

(***************************************************************************)
(* The same sum evaluated term by term, summing every name as soon as no   *)
(* later term and no output needs it (that this equals Einsum is one of    *)
(* the laws checked on the closed model).                                  *)
(***************************************************************************)
RECURSIVE EinsumFrom(_, _, _)
EinsumFrom(acc, terms, out) ==
    IF Len(terms) = 0 THEN Einsum(<<acc>>, out)
    ELSE LET t == Head(terms)
             later == UNION {Rng(terms[i].L) : i \in 2..Len(terms)}
             keep == TLCEval(SelectSeq(acc.L \o Without(t.L, Rng(acc.L)), LAMBDA x : x \in later \cup Rng(out)))
         IN EinsumFrom(TLCEval(Einsum(<<acc, t>>, keep)), Tail(terms), out)
EinsumSeq(terms, out) == IF Len(terms) <= 2 THEN Einsum(terms, out)
                         ELSE EinsumFrom(terms[1], Tail(terms), out)

\* the same tensor with its indices listed in another order
Permute(v, L2) == IF v.L = L2 THEN v ELSE Einsum(<<v>>, L2)

\* equality up to the order in which the indices are listed
SameValue(v, w) == /\ IsPerm(v.L, w.L)
                   /\ \A x \in Rng(v.L) : DimOf(v, x) = DimOf(w, x)
                   /\ LET u == Permute(v, w.L) IN u.re = w.re /\ u.im = w.im

Relabel(v, f(_)) == [v EXCEPT !.L = MapSeq(v.L, f)]

\* fuse the indices ls (in this order, row-major) into one index named new
Fuse(v, ls, new) ==
    LET rest == Without(v.L, Rng(ls))
        u    == Permute(v, ls \o rest)
    IN [L |-> <<new>> \o rest,
        D |-> <<Prod(MapSeq(ls, LAMBDA x : DimOf(v, x)))>> \o MapSeq(rest, LAMBDA x : DimOf(v, x)),
        re |-> u.re, im |-> u.im]

\* sum over index l with the given weights w + i wi (<<>>: all one; real)
SumOutC(v, l, w, wi) ==
    LET rest == Without(v.L, {l})
    IN IF w = <<>> THEN Einsum(<<v>>, rest)
       ELSE Einsum(<<v, [L |-> <<l>>, D |-> <<Len(w)>>, re |-> w, im |-> wi]>>, rest)
SumOut(v, l, w) == SumOutC(v, l, w, <<>>)

\* the dense value of a diagonal tensor: entry a[i] where all indices are i, else 0
DiagExpand(L, D, re, im) ==
    IF Len(L) = 0 THEN Canon([L |-> L, D |-> D, re |-> re, im |-> im])
    ELSE LET n == Prod(D)
             F == Strides(D)
             step == SumSeq(F)
             At(s, p) == IF (p - 1) % step = 0 /\ (p - 1) \div step < D[1] THEN s[1 + (p - 1) \div step] ELSE 0
         IN Canon([L |-> L, D |-> D,
                   re |-> TLCEval([p \in 1..n |-> At(re, p)]),
                   im |-> IF im = <<>> THEN <<>> ELSE TLCEval([p \in 1..n |-> At(im, p)])])

\* matrix view: rows and columns are row-major
AsMatrix(v, rows, cols) == Permute(v, rows \o cols)

\* trace of the square matrix view, as <<re, im>>
Trace(v, rows, cols) ==
    LET m == Permute(v, rows \o cols)
        n == Prod(MapSeq(rows, LAMBDA x : DimOf(v, x)))
        P(i) == (i - 1) * n + i
    IN <<SumSeq([i \in 1..n |-> m.re[P(i)]]), SumSeq([i \in 1..n |-> ImAt(m, P(i))])>>

\* squared Frobenius norm
Norm2(v) == SumSeq([i \in 1..Len(v.re) |-> v.re[i] * v.re[i]]) + SumSeq([i \in 1..Len(v.im) |-> v.im[i] * v.im[i]])
=============================================================================

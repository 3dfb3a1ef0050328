------------------------------- MODULE Ising -------------------------------
(***************************************************************************)
(* The Ising model on weighted undirected graphs, and the named lattices.  *)
(* A graph is [n, edges]: sites 0..n-1 and bonds <<i, j, w>>; the coupling *)
(* beta J of a bond is w ln2 / 2, so that a bond contributes 2^(w/2) to a  *)
(* configuration where its spins agree and 2^(-w/2) where they differ.     *)
(* All weights are given times 2^(sum of |w| / 2): a bond then contributes *)
(* 2^|w| where it is satisfied and 1 where it is not: whole numbers.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Bags

Pow2(k) == 2 ^ k
Bit(S, i) == (S \div Pow2(i)) % 2
AbsI(x) == IF x < 0 THEN -x ELSE x
BondWeight(w, s, t) == IF (w > 0 /\ s = t) \/ (w < 0 /\ s # t) THEN Pow2(AbsI(w)) ELSE 1
Weight(g, S) == FoldLeft(LAMBDA a, e : a * BondWeight(e[3], Bit(S, e[1]), Bit(S, e[2])), 1, g.edges)
Z(g) == FoldLeft(LAMBDA a, S : a + Weight(g, S - 1), 0, [i \in 1..Pow2(g.n) |-> i])

\* bonds without direction
Bond(e) == <<IF e[1] <= e[2] THEN e[1] ELSE e[2], IF e[1] <= e[2] THEN e[2] ELSE e[1], e[3]>>
CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBonds(s, t) == LET a == TLCEval([i \in 1..Len(s) |-> Bond(s[i])])
                       b == TLCEval([i \in 1..Len(t) |-> Bond(t[i])])
                   IN Len(a) = Len(b) /\ \A i \in 1..Len(a) : CountIn(a, a[i]) = CountIn(b, a[i])
Degree(g, v) == FoldLeft(LAMBDA a, e : a + (IF e[1] = v THEN 1 ELSE 0) + (IF e[2] = v THEN 1 ELSE 0), 0, g.edges)

\* a bond from a site to itself only gives a constant: the tensor of the site has no leg for it
Links(g, v) == Cardinality({i \in 1..Len(g.edges) : g.edges[i][1] # g.edges[i][2] /\ v \in {g.edges[i][1], g.edges[i][2]}})

(***************************************************************************)
(* Lattices of n rows and m columns, sites in reading order.               *)
(***************************************************************************)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Cells(n, m) == Flat([x \in 1..n |-> [y \in 1..m |-> <<x - 1, y - 1>>]])
At(m, x, y) == x * m + y
SquarePBC(n, m, wv, wh) ==
    [n |-> n * m,
     edges |-> Flat([k \in 1..(n * m) |-> LET c == Cells(n, m)[k] IN
                    << <<At(m, c[1], c[2]), At(m, c[1], (c[2] + 1) % m), wh>>,
                       <<At(m, c[1], c[2]), At(m, (c[1] + 1) % n, c[2]), wv>> >>])]
SquareFBC(n, m, wv, wh) ==
    [n |-> n * m,
     edges |-> Flat([k \in 1..(n * m) |-> LET c == Cells(n, m)[k] IN
                    (IF c[2] + 1 < m THEN << <<At(m, c[1], c[2]), At(m, c[1], c[2] + 1), wh>> >> ELSE <<>>)
                    \o (IF c[1] + 1 < n THEN << <<At(m, c[1], c[2]), At(m, c[1] + 1, c[2]), wv>> >> ELSE <<>>)])]
\* plaquettes in n rows and m columns; first the sites above and below plaquettes, then those beside them
Top(m, x, y) == x * m + y
Side(n, m, x, y) == (n + 1) * m + x * (m + 1) + y
DoubleFBC(n, m, wd, wu) ==   \* wd: bonds going down to the right, wu: bonds going up to the right
    [n |-> (n + 1) * m + n * (m + 1),
     edges |-> Flat([k \in 1..(n * m) |-> LET c == Cells(n, m)[k]
                                              x == c[1]  y == c[2]
                                          IN << <<Side(n, m, x, y), Top(m, x, y), wu>>,
                                                <<Top(m, x, y), Side(n, m, x, y + 1), wd>>,
                                                <<Side(n, m, x, y), Top(m, x + 1, y), wd>>,
                                                <<Top(m, x + 1, y), Side(n, m, x, y + 1), wu>> >>])]
Complete(n, w) == [n |-> n, edges |-> Flat([i \in 1..n |-> Flat([j \in 1..n |-> IF i < j THEN << <<i - 1, j - 1, w>> >> ELSE <<>>])])]
Lattice(e) == CASE e.name = "squarePBC" -> SquarePBC(e.n, e.m, e.w1, e.w2)
                [] e.name = "squareFBC" -> SquareFBC(e.n, e.m, e.w1, e.w2)
                [] e.name = "doubleFBC" -> DoubleFBC(e.n, e.m, e.w1, e.w2)
                [] e.name = "complete" -> Complete(e.n, e.w1)

(***************************************************************************)
(* Local tensors.                                                          *)
(***************************************************************************)
\* plaquette with corners going round: lu, ru, rd, ld; vertical bonds ru-rd and ld-lu
\* carry wv, horizontal ones wh; scaled by 2^(|wv| + |wh|)
Plaquette(wv, wh, lu, ru, rd, ld) == BondWeight(wv, ru, rd) * BondWeight(wv, ld, lu) * BondWeight(wh, rd, ld) * BondWeight(wh, lu, ru)
\* square tensor at beta = k ln2 / 4 ... all bonds 2 beta J: E in {-4, 0, 4}, exp(-beta E) = 2^(-k E / 4)
EnergyOf(a, b, c, d) == (IF a = b THEN -1 ELSE 1) + (IF b = c THEN -1 ELSE 1) + (IF c = d THEN -1 ELSE 1) + (IF d = a THEN -1 ELSE 1)
Twice(x) == 2 * x - 1
Moment(a, b, c, d) == (Twice(a) + Twice(b) + Twice(c) + Twice(d)) \div 2
\* times 2^(|k| + 2 |j|), with symmetry breaking field j ln2
SquareEntry(k, j, obs, a, b, c, d) ==
    LET E == EnergyOf(a, b, c, d)
        M == Moment(a, b, c, d)
        x == AbsI(k) + (0 - k * E) \div 4 + 2 * AbsI(j) + j * M
    IN (CASE obs = "M" -> M [] obs = "E" -> E [] OTHER -> 1) * Pow2(x)
\* site of given couplings, each leg ending in a spin: sum over the site of the product of bonds
BondProduct(ws, spins, s) == FoldLeft(LAMBDA a, i : a * BondWeight(ws[i], s, spins[i]), 1, [i \in 1..Len(ws) |-> i])
\* the infinite square lattice at exp(2 V / T) = p/q: magnetization to the 8th, times (p^2 - q^2)^4
Magnet8(p, q) == IF p * p - q * q < 2 * p * q THEN 0 ELSE (p * p - q * q) ^ 4 - (2 * p * q) ^ 4
SiteEntry(ws, spins) == BondProduct(ws, spins, 0) + BondProduct(ws, spins, 1)
=============================================================================

----------------------------- MODULE MCLattice -----------------------------
(***************************************************************************)
(* MODE 1: every history of DEPTH calls of getZ(L), L <= 5, and bare steps *)
(* of a corner method: a closed model of the record keeping (corners,      *)
(* edges and the step reached) over exact corners.  Law: the value of size *)
(* L is the one of the lattice, whatever was asked before.                 *)
(* MODE 2: laws of the periodic sums over all 0/1 (ENTRY = 1) or 0/1/2     *)
(* tensors of a family: two sites fused into one give the same numbers, a  *)
(* quarter turn turns the torus, and the twisted tori are the square ones  *)
(* for even steps.                                                         *)
(***************************************************************************)
EXTENDS Lattice, Json, IOUtils

Mode == atoi(IOEnv.MODE)
Depth == atoi(IOEnv.DEPTH)
Entry == atoi(IOEnv.ENTRY)

Ten(f) == [L |-> <<"l", "r", "u", "d">>, D |-> <<2, 2, 2, 2>>, re |-> f, im |-> <<>>]
\* a symmetric tensor given by its entries at (l <= r, u <= d)
Sym(s) == Ten([p \in 1..16 |-> LET b(k) == ((p - 1) \div k) % 2
                                   h == b(8) + b(4)
                                   v == b(2) + b(1)
                               IN s[1 + 3 * h + v]])
Pool == {Sym(<<1, 1, 0, 1, 0, 1, 0, 1, 1>>), Sym(<<2, 0, 1, 0, 1, 0, 1, 0, 1>>), Sym(<<0, 1, 1, 1, 1, 0, 1, 0, 0>>)}
Family == IF Mode = 1 THEN Pool
          ELSE {Ten([p \in 1..16 |-> LET b(k) == ((p - 1) \div k) % 2
                                     IN IF (b(8) + b(4) + b(2) + b(1)) % 2 = 0 THEN e[1 + (((p - 1) \div 2) % 8)] ELSE e[9]])
                  : e \in {[i \in 1..9 |-> IF i <= 4 THEN f[i] ELSE IF i <= 8 THEN (f[i - 4] + g[1 + (i % 2)]) % (Entry + 1) ELSE g[1]]
                           : f \in [1..4 -> 0..Entry], g \in [1..2 -> 0..Entry]}}

VARIABLES T, asked, reached, recs, ans
vars == <<T, asked, reached, recs, ans>>

\* the matrix of an exact corner, and the corner one step larger made from the smaller one and the edges
Mat(v, k) == [L |-> <<"a", "b">>, D |-> <<Pow2(k), Pow2(k)>>, re |-> v.re, im |-> v.im]
\* contraction of four corners: the trace of the fourth power of M M^T ... for a corner M[u, r]
Dot(m, n, D) == LET At(x, i, j) == x[(i - 1) * D + j]
                IN TLCEval([p \in 1..(D * D) |-> FoldLeft(LAMBDA s, k : s + At(m, 1 + ((p - 1) \div D), k) * At(n, 1 + ((p - 1) % D), k), 0, Iota(D))])
FourCorners(v, k) == LET D == Pow2(k)
                         g == Dot(v.re, v.re, D)
                     IN FoldLeft(LAMBDA s, p : s + g[p] * g[p], 0, Iota(D * D))

Init == /\ T \in Family /\ asked = <<>> /\ reached = 1 /\ recs = <<>>
        /\ ans = <<0, 0>>
\* the record keeping: corner k is kept in recs[k] once step k + 1 was made
Ask(L) == LET k == L \div 2
              r2 == IF k > reached THEN k ELSE reached
          IN /\ reached' = r2
             /\ recs' = [i \in 1..(r2 - 1) |-> i]
             /\ ans' = IF L = 1 THEN <<1, 0>> ELSE <<L, IF r2 = k THEN r2 ELSE recs'[k]>>
Step == reached' = reached + 1 /\ recs' = [i \in 1..reached |-> i] /\ ans' = <<0, 0>>
Next == /\ Mode = 1 /\ Len(asked) < Depth /\ UNCHANGED T
        /\ \E L \in 0..5 : /\ asked' = Append(asked, L)
                           /\ IF L = 0 THEN reached < 3 /\ Step ELSE Ask(L)
        /\ IF Len(asked') = Depth /\ T = (CHOOSE x \in Pool : TRUE) THEN PrintT("BEHAVIOUR " \o ToJson(asked')) ELSE TRUE
Spec == Init /\ [][Next]_vars

\* the corner used for size L is the one of L \div 2 sites
RightCorner == (Mode = 1 /\ ans[1] > 1) => ans[2] = ans[1] \div 2
\* four exact corners are the even lattice
EvenLaw == (Mode = 1 /\ asked = <<>>) => \A k \in 1..2 : FourCorners(CornerOpen(T, k), k) = OpenZ(T, 2 * k, 2 * k)

Stack(X) == \* two sites on top of each other as one tensor
    LET a == Site(X, "l1", "r1", "u", "m")
        b == Site(X, "l2", "r2", "m", "d")
        e == Einsum(<<a, b>>, <<"l1", "l2", "r1", "r2", "u", "d">>)
    IN Fuse(Fuse(e, <<"l1", "l2">>, "l"), <<"r1", "r2">>, "r")
Turn(X) == Site(X, "d", "u", "l", "r")
Blocked == Mode = 2 => LET B == TLCEval(Stack(T)) IN TorusZ(B, 1, 1) = TorusZ(T, 1, 2) /\ TorusZ(B, 2, 1) = TorusZ(T, 2, 2)
Turned == Mode = 2 => TorusZ(Turn(T), 2, 1) = TorusZ(T, 1, 2) /\ TorusZ(Turn(T), 2, 2) = TorusZ(T, 2, 2) /\ TwistedZ(Turn(T), 1) = TwistedZ(T, 1)
Twisted == Mode = 2 => TwistedZ(T, 2) = TorusZ(T, 2, 2) /\ TwistedZ(T, 0) = TorusZ(T, 1, 1)
\* two sites on the twisted torus
TwoSites == Mode = 2 => TwistedZ(T, 1) = Scalar(Einsum(<<Site(T, "h1", "h2", "v1", "v2"), Site(T, "h2", "h1", "v2", "v1")>>, <<>>))
Moments == Mode = 2 => Moment(<<T, T, T>>, 2, 1, 2) = 4 * TorusZ(T, 1, 2) /\ Moment(<<T>>, 0, 2, 1) = TorusZ(T, 2, 1)
=============================================================================

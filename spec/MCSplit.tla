------------------------------ MODULE MCSplit ------------------------------
(***************************************************************************)
(* Laws of the certificates: for orthogonal certificates of 2 x 2 and      *)
(* 2 x 3 matrices, the squared distance from the first k terms is the sum  *)
(* of the discarded strengths, and no matrix of rank one with small        *)
(* integer entries is nearer than the first term.                          *)
(***************************************************************************)
EXTENDS Split, IOUtils

Box == atoi(IOEnv.BOX)
Vecs == (-Box)..Box
Bases2 == { <<1, 0, 0, 1>>, <<1, -1, 1, 1>>, <<1, -2, 2, 1>>, <<0, 2, 1, 0>> }
Bases3 == { <<1, 2, 2, 1, 2, -2>>, <<1, 0, 0, 1, 0, 0>>, <<1, -1, 1, 1, 0, 1>> }   \* 3 x 2, columns orthogonal
M2(b) == [L |-> <<"r", "*">>, D |-> <<2, 2>>, re |-> b, im |-> <<>>]
M3(b) == [L |-> <<"c", "*">>, D |-> <<3, 2>>, re |-> b, im |-> <<>>]
C2(b) == [M2(b) EXCEPT !.L = <<"c", "*">>]
Certs == {c \in {[U |-> M2(b), V |-> v, s |-> <<s1, s2>>] : b \in Bases2, v \in {C2(x) : x \in Bases2} \cup {M3(x) : x \in Bases3}, s1 \in 1..3, s2 \in 1..2} :
            Orthogonal(c.U) /\ Orthogonal(c.V) /\ Strengths(c)[1] > Strengths(c)[2]}
Dist(v, w) == SumSeq([i \in 1..Len(v.re) |-> (v.re[i] - w.re[i]) * (v.re[i] - w.re[i])])

VARIABLES cert, x, full, q
vars == <<cert, x, full, q>>
Init == /\ cert \in Certs /\ x \in [1..2 -> Vecs]
        /\ full = Partial(cert, 2)
        /\ q = Strengths(cert)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

n2 == cert.V.D[1]
Loss == Dist(full, Partial(cert, 1)) = q[2]
Total == Norm2(full) = q[1] + q[2]
\* distance from the rank-one matrix x y^T, row by row
Away(y) == SumSeq([i \in 1..(2 * n2) |-> LET d == full.re[i] - x[1 + ((i - 1) \div n2)] * y[1 + ((i - 1) % n2)] IN d * d])
Nearest == \A y \in [1..n2 -> (-Box - 1)..(Box + 1)] : Away(y) >= q[2]
SelfCert == Certifies(cert, full)
=============================================================================

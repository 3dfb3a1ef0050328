------------------------------- MODULE MCLegs -------------------------------
(***************************************************************************)
(* Closed model: two tensors over the names x and y (every pattern of      *)
(* names, a few bondings) and every request on them.  Laws of Legs, and    *)
(* export of every request for the real library.                           *)
(***************************************************************************)
EXTENDS Legs, Json, IOUtils
Wide == IOEnv.WIDE = "1"
Nm == {"x", "y"}
\* entries that tell all positions apart
Fill(D, s) == [p \in 1..Prod(D) |-> ((p * (p + s)) % 11) + p]
T(L, D, s) == [k |-> "dense", L |-> L, D |-> D, P |-> [i \in 1..Len(L) |-> Open], re |-> Fill(D, s), im |-> <<>>, ok |-> TRUE]
Dims3 == IF Wide THEN {<<2, 3, 2>>, <<2, 2, 2>>} ELSE {<<2, 3, 2>>}
As == {T(L, D, 1) : L \in [1..3 -> Nm], D \in Dims3} \cup {T(L, <<2, 3>>, 1) : L \in [1..2 -> Nm]}
Bs == {T(L, <<3, 2>>, 4) : L \in {<<"x", "x">>, <<"x", "y">>}} \cup (IF Wide THEN {T(<<"y", "x", "x">>, <<2, 3, 2>>, 5)} ELSE {})
\* bondings: sets of pairs of positions
Fit(a, b) == {z \in (1..Rank(a)) \X (1..Rank(b)) : a.D[z[1]] = b.D[z[2]]}
Bondings(a, b) == {S \in SUBSET Fit(a, b) : Cardinality(S) <= 2 /\ \A z, w \in S : z # w => z[1] # w[1] /\ z[2] # w[2]}
Bonded(a, b, S) == << [a EXCEPT !.P = [i \in 1..Rank(a) |-> IF \E z \in S : z[1] = i THEN <<2, (CHOOSE z \in S : z[1] = i)[2]>> ELSE Open]],
                      [b EXCEPT !.P = [i \in 1..Rank(b) |-> IF \E z \in S : z[2] = i THEN <<1, (CHOOSE z \in S : z[2] = i)[1]>> ELSE Open]] >>
Heaps == UNION {{Bonded(a, b, S) : S \in Bondings(a, b)} : a \in As, b \in Bs}

Lists(S, m) == UNION {[1..n -> S] : n \in 0..m}
Reqs(H) ==
    LET n == Rank(H[1])
        free == \A i \in 1..n : H[1].P[i] = Open
        full == {p \o q : p \in {<<>>}, q \in Perms(n)}
    IN {[op |-> "index", a |-> 1, lab |-> x, back |-> b] : x \in Nm \cup {"z"}, b \in BOOLEAN}
       \cup {[op |-> "indices", a |-> 1, labs |-> l, back |-> b] : l \in Lists(Nm, 2), b \in BOOLEAN}
       \cup {[op |-> "front", a |-> 1, labs |-> l] : l \in Lists(Nm, 3)}
       \cup {[op |-> "legsof", a |-> 1, labs |-> l] : l \in Lists(Nm, 2)}
       \cup {[op |-> "rearrange", a |-> 1, labs |-> l] : l \in Lists(Nm, 3)}
       \cup {[op |-> "totensor", a |-> 1, labs |-> l] : l \in Lists(Nm, 3)}
       \cup {[op |-> "frontlegs", a |-> 1, ps |-> l] : l \in Lists(1..n, 2)}
       \cup {[op |-> "matrix", a |-> 1, ps |-> SubSeq(p, 1, i), qs |-> SubSeq(p, i + 1, n), how |-> h] : p \in Perms(n), i \in 0..n, h \in {"both", "rows", "cols"}}
       \cup {[op |-> "rename", a |-> 1, from |-> <<x>>, to |-> <<y>>] : x \in Nm \cup {"z"}, y \in {"x", "w"}}
       \cup {[op |-> "copylist", as |-> s, like |-> FALSE, outg |-> o] : s \in {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>}, o \in BOOLEAN}
       \cup {[op |-> "contract", as |-> s] : s \in {<<1, 2>>, <<2, 1>>}}
       \cup {[op |-> "contractlist", as |-> s, seq |-> q, inplace |-> i] : s \in {<<1, 2>>, <<2, 1>>}, q \in {<< <<0, 1>> >>, << <<1, 0>> >>, <<>>}, i \in BOOLEAN}
       \cup IF free THEN {[op |-> "fuselegs", a |-> 1, ps |-> l, new |-> "x"] : l \in Lists(1..n, 2)}
                         \cup {[op |-> "fuse", a |-> 1, labs |-> l, new |-> "m"] : l \in Lists(Nm, 2)}
                         \cup {[op |-> "sumout", a |-> 1, labs |-> l, back |-> b, w |-> <<>>] : l \in Lists(Nm \cup {"z"}, 2), b \in BOOLEAN}
                         \cup {[op |-> "sumleg", a |-> 1, p |-> i, w |-> w] : i \in 1..n, w \in {<<>>, <<1, -2>>, <<3, 1, 2>>}}
                    ELSE {}
\* how = rows / cols leaves the other side in any order: only one order is asked
Asked(H, e) == IF e.op = "matrix" /\ e.how = "rows" THEN e.qs = RestOf(H[1], e.ps)
               ELSE IF e.op = "matrix" /\ e.how = "cols" THEN e.ps = RestOf(H[1], e.qs)
               ELSE TRUE

VARIABLES h, req
Init == h \in Heaps /\ req = [op |-> "none"]
Next == /\ req.op = "none" /\ h' = h
        /\ \E e \in Reqs(h) : Asked(h, e) /\ req' = e
        /\ PrintT("BEHAVIOUR " \o ToJson([h |-> h', e |-> req', ok |-> Ask(h', req')]))
Spec == Init /\ [][Next]_<<h, req>>

(* ----------------------------------------------------------------- laws *)
Made == req.op # "none" /\ Ask(h, req)
Legal == Coherent(h)
\* after every request the bonds are mutual
StaysCoherent == Made => LET G == Effect(h, req) IN Coherent([i \in 1..Len(G) |-> [ok |-> TRUE] @@ G[i]])
\* every mention list that is accepted takes each leg once
MentionsDistinct == Made /\ req.op \in {"front", "rearrange", "totensor"} => Distinct(Mentions(h[1].L, req.labs))
\* with distinct names backward and forward agree
OneEnd == Distinct(h[1].L) => \A x \in Nm : Find(h[1].L, x, TRUE) = Find(h[1].L, x, FALSE)
\* contraction does not depend on the order of the operands
Commutes == Made /\ req.op = "contract" =>
    LET X == Consume(h, <<1, 2>>)  Y == Consume(h, <<2, 1>>) IN SameHeap(X, <<Y[2], Y[1]>>)
\* copying everything and contracting the copies is contracting
CopyThenContract == Made /\ req.op = "contractlist" /\ ~req.inplace =>
    LET C == Copies(h, <<1, 2>>, FALSE, FALSE) IN SameHeap(<<Consume(C, <<3, 4>>)[3]>>, <<Unbonded(Product(h, <<1, 2>>))>>)
Reflexive == SameHeap(h, h)
\* a heap differs from the one with the first two legs of equal name and dimension exchanged in their bonds, unless that changes nothing
Discerns == \A i, j \in 1..Rank(h[1]) :
    i < j /\ h[1].P[i] # h[1].P[j] /\ h[1].P[i] # Open /\ h[1].P[j] = Open /\ h[1].D[i] = h[1].D[j] =>
      LET q == h[1].P[i]
          G == [h EXCEPT ![1].P[j] = q, ![1].P[i] = Open, ![2].P[q[2]] = <<1, j>>]
      IN ~SameHeap(h, G)
=============================================================================

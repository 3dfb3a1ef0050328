-------------------------------- MODULE Legs --------------------------------
(***************************************************************************)
(* Tensors whose legs may carry equal names, as products of unrelated      *)
(* tensors do.  CtlNet addresses legs by name; here legs are positions, a  *)
(* name stands for the positions that carry it:                            *)
(*   a single name means its first leg (its last one when asked backward), *)
(*   a list of names means, for the k-th mention of a name, its k-th leg.  *)
(*                                                                         *)
(* A heap H is a sequence of tensors [k, L, D, P, re, im] with k one of    *)
(* "dense", "diag", "like", "dlike" or "gone", and P[i] the address        *)
(* <<tensor, position>> of the leg bonded with leg i, or <<0, 0>>.  Leg    *)
(* order carries no meaning beyond the choice among equal names: heaps are *)
(* compared up to one permutation of the legs of each tensor.              *)
(***************************************************************************)
EXTENDS Ein

Open == <<0, 0>>
Shapeless(t) == t.k \in {"like", "dlike"}
Diagonal(t) == t.k \in {"diag", "dlike"}
Gone == [k |-> "gone", L |-> <<>>, D |-> <<>>, P |-> <<>>, re |-> <<>>, im |-> <<>>]
Rank(t) == Len(t.L)
Dg(i) == SubSeq("123456789abcdefghijklmnop", i, i)

(* ------------------------------------------------------- names to legs *)
PosOf(L, x) == {i \in 1..Len(L) : L[i] = x}
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
MaxOf(S) == CHOOSE i \in S : \A j \in S : i >= j
First(L, x) == IF PosOf(L, x) = {} THEN 0 ELSE MinOf(PosOf(L, x))
Final(L, x) == IF PosOf(L, x) = {} THEN 0 ELSE MaxOf(PosOf(L, x))
Find(L, x, back) == IF back THEN Final(L, x) ELSE First(L, x)

Kth(L, x, k) == LET S == PosOf(L, x)
                IN IF Cardinality(S) < k THEN 0
                   ELSE CHOOSE i \in S : Cardinality({j \in S : j <= i}) = k
\* the k-th mention of a name is its k-th leg; 0 if there is none
Mentions(L, labs) == [j \in 1..Len(labs) |-> Kth(L, labs[j], Cardinality({i \in 1..j : labs[i] = labs[j]}))]
\* a name mentioned again is searched from the other end
TwoEnded(L, labs, back) == [j \in 1..Len(labs) |->
    Find(L, labs[j], IF \E i \in 1..(j - 1) : labs[i] = labs[j] THEN ~back ELSE back)]
BagEq(s, t) == Len(s) = Len(t) /\ \A x \in Rng(s) \cup Rng(t) : Cardinality(PosOf(s, x)) = Cardinality(PosOf(t, x))

(* ------------------------------------------------------------- values *)
\* the value of t with its legs called 1, 2, ...
Names(n) == [i \in 1..n |-> Dg(i)]
ValueOf(t) == IF t.k = "diag" THEN DiagExpand(Names(Rank(t)), t.D, t.re, t.im)
              ELSE Canon([L |-> Names(Rank(t)), D |-> t.D, re |-> t.re, im |-> t.im])
Dgs(ps) == [j \in 1..Len(ps) |-> Dg(ps[j])]
RestOf(t, ps) == SelectSeq(Iota(Rank(t)), LAMBDA i : i \notin Rng(ps))
\* the entries of t read with the legs in the order ps
ReadIn(t, ps) == IF Shapeless(t) THEN [re |-> <<>>, im |-> <<>>]
                 ELSE LET u == Permute(ValueOf(t), Dgs(ps)) IN [re |-> u.re, im |-> u.im]

(* -------------------------------------------------------- comparison *)
Perms(n) == {p \in [1..n -> 1..n] : Distinct(p)}
\* leg i of u is leg p[i] of t
LegMatch(t, u, p) == \A i \in 1..Len(p) : u.L[i] = t.L[p[i]] /\ u.D[i] = t.D[p[i]] /\ (u.P[i] = Open) = (t.P[p[i]] = Open)
Entries(u) == IF Shapeless(u) THEN [re |-> <<>>, im |-> <<>>]
              ELSE LET v == ValueOf(u) IN [re |-> v.re, im |-> v.im]
KindsAgree(t, u) == (t.k = "gone") = (u.k = "gone") /\ Shapeless(t) = Shapeless(u)
Matches(t, u) == IF t.k = "gone" \/ ~KindsAgree(t, u) \/ Rank(t) # Rank(u) THEN (IF t.k = "gone" /\ u.k = "gone" THEN {<<>>} ELSE {})
                 ELSE LET E == TLCEval(Entries(u))
                      IN TLCEval({p \in Perms(Rank(t)) : LegMatch(t, u, p) /\ ReadIn(t, p) = E})
BondsMatch(H, G, f) == \A a \in 1..Len(H) : \A i \in 1..Rank(G[a]) :
                          LET q == H[a].P[f[a][i]]
                          IN q = Open \/ /\ q[1] \in 1..Len(H)
                                         /\ G[a].P[i][1] = q[1] /\ G[a].P[i][2] \in 1..Rank(G[q[1]])
                                         /\ f[q[1]][G[a].P[i][2]] = q[2]
\* all ways to pick one element of each of the sets
RECURSIVE Picks(_)
Picks(Ss) == IF Len(Ss) = 0 THEN {<<>>} ELSE {<<x>> \o y : x \in Head(Ss), y \in Picks(Tail(Ss))}
\* G is H with leg i of tensor a being leg pre[i] for the first Len(pre) legs
SameFront(H, G, a, pre) ==
    /\ Len(H) = Len(G)
    /\ LET M == TLCEval([t \in 1..Len(H) |-> {p \in Matches(H[t], G[t]) : t # a \/ SubSeq(p, 1, Len(pre)) = pre}])
       IN \E f \in Picks(M) : BondsMatch(H, G, f)
SameHeap(H, G) == SameFront(H, G, 0, <<>>)

(* ----------------------------------------------------------- effects *)
\* put tensor t (with its bonds) at address a; its partners point back to it,
\* and a leg whose partner is no longer there is free
Place(H, a, t) ==
    LET H1 == [H EXCEPT ![a] = t]
    IN [x \in 1..Len(H) |->
          IF x = a THEN t
          ELSE [H1[x] EXCEPT !.P = [i \in 1..Rank(H1[x]) |->
                 LET js == {j \in 1..Rank(t) : t.P[j] = <<x, i>>}
                 IN IF js # {} THEN <<a, MinOf(js)>>
                    ELSE IF H1[x].P[i] # Open /\ H1[x].P[i][1] = a THEN Open ELSE H1[x].P[i]]]]
SelP(t, ps) == [j \in 1..Len(ps) |-> t.P[ps[j]]]
SelL(t, ps) == [j \in 1..Len(ps) |-> t.L[ps[j]]]
SelD(t, ps) == [j \in 1..Len(ps) |-> t.D[ps[j]]]

WithNames(H, a, L2) == [H EXCEPT ![a].L = L2]
RenameSeq(L, from, to) ==
    LET nth(s, p) == Cardinality({q \in 1..p : s[q] = s[p]})
    IN [p \in 1..Len(L) |-> LET K == {k \in 1..Len(from) : from[k] = L[p] /\ nth(from, k) = nth(L, p)}
                            IN IF K = {} THEN L[p] ELSE to[CHOOSE k \in K : TRUE]]
HasBar(s) == \E i \in 1..Len(s) : SubSeq(s, i, i) = "-"
Untagged(s) == IF HasBar(s)
               THEN LET i == CHOOSE i \in 1..Len(s) : SubSeq(s, i, i) = "-" /\ \A j \in 1..(i - 1) : SubSeq(s, j, j) # "-"
                    IN SubSeq(s, i + 1, Len(s))
               ELSE s

Fused(t, ps, new) ==
    LET rest == RestOf(t, ps)
        r == ReadIn(t, ps \o rest)
    IN [k |-> t.k, L |-> <<new>> \o SelL(t, rest), D |-> <<Prod(SelD(t, ps))>> \o SelD(t, rest),
        P |-> <<Open>> \o SelP(t, rest), re |-> r.re, im |-> r.im]
\* a tensor that lost leg i; a diagonal one is kept as its expansion ("dense")
Summed(t, i, w) ==
    LET rest == RestOf(t, <<i>>)
        k2 == IF Shapeless(t) THEN "like" ELSE "dense"
        v == IF Shapeless(t) THEN [re |-> <<>>, im |-> <<>>] ELSE SumOut(ValueOf(t), Dg(i), w)
    IN [k |-> k2, L |-> SelL(t, rest), D |-> SelD(t, rest), P |-> SelP(t, rest), re |-> v.re, im |-> v.im]
RECURSIVE SummedAll(_, _, _, _)
SummedAll(t, labs, back, w) ==
    IF labs = <<>> THEN t
    ELSE LET i == Find(t.L, Head(labs), back)
         IN SummedAll(IF i = 0 THEN t ELSE Summed(t, i, w), Tail(labs), back, w)

\* contraction of the tensors as over all bonds among them
Inner(H, as, p) == p # Open /\ p[1] \in Rng(as)
IdxName(H, as, n, i) == LET p == H[as[n]].P[i]
                        IN IF Inner(H, as, p) /\ IndexOf(as, p[1]) < n
                           THEN Dg(IndexOf(as, p[1])) \o Dg(p[2]) ELSE Dg(n) \o Dg(i)
RECURSIVE Cat(_)
Cat(ss) == IF Len(ss) = 0 THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Kept(H, as, n) == SelectSeq(Iota(Rank(H[as[n]])), LAMBDA i : ~Inner(H, as, H[as[n]].P[i]))
Product(H, as) ==
    LET N == 1..Len(as)
        keep == TLCEval([n \in N |-> Kept(H, as, n)])
        L == Cat([n \in N |-> SelL(H[as[n]], keep[n])])
        D == Cat([n \in N |-> SelD(H[as[n]], keep[n])])
        P == Cat([n \in N |-> SelP(H[as[n]], keep[n])])
        terms == TLCEval([n \in N |-> [ValueOf(H[as[n]]) EXCEPT !.L = [i \in 1..Rank(H[as[n]]) |-> IdxName(H, as, n, i)]]])
        out == TLCEval(Cat([n \in N |-> [j \in 1..Len(keep[n]) |-> Dg(n) \o Dg(keep[n][j])]]))
    IN IF Shapeless(H[as[1]]) THEN [k |-> "like", L |-> L, D |-> D, P |-> P, re |-> <<>>, im |-> <<>>]
       ELSE LET v == EinsumSeq(terms, out)
            IN [k |-> "dense", L |-> L, D |-> D, P |-> P, re |-> v.re, im |-> v.im]
Unbonded(t) == [t EXCEPT !.P = [i \in 1..Rank(t) |-> Open]]
Consume(H, as) == LET t == TLCEval(Product(H, as))
                  IN Place([x \in 1..Len(H) |-> IF x \in Rng(as) THEN Gone ELSE H[x]], as[1], t)

Likened(t) == [t EXCEPT !.k = IF Diagonal(t) THEN "dlike" ELSE "like", !.re = <<>>, !.im = <<>>]
\* copies of as appended in order; inner bonds reproduced; with outg the outer bonds move to the copies
Copies(H, as, like, outg) ==
    LET n == Len(H)
        C(a) == n + IndexOf(as, a)
        CP(p) == IF p = Open THEN Open ELSE IF p[1] \in Rng(as) THEN <<C(p[1]), p[2]>> ELSE IF outg THEN p ELSE Open
        Cp(t) == [(IF like THEN Likened(t) ELSE t) EXCEPT !.P = [i \in 1..Rank(t) |-> CP(t.P[i])]]
        Og(x) == IF ~outg THEN H[x]
                 ELSE [H[x] EXCEPT !.P = [i \in 1..Rank(H[x]) |->
                        LET p == H[x].P[i]
                        IN IF p = Open THEN Open
                           ELSE IF x \in Rng(as) /\ p[1] \notin Rng(as) THEN Open
                           ELSE IF x \notin Rng(as) /\ p[1] \in Rng(as) THEN <<C(p[1]), p[2]>>
                           ELSE p]]
    IN [x \in 1..(n + Len(as)) |-> IF x <= n THEN Og(x) ELSE Cp(H[as[x - n]])]

(* ---------------------------------------------------- valid requests *)
Legit(t, ps) == (\A j \in 1..Len(ps) : ps[j] \in 1..Rank(t)) /\ Distinct(ps)
SquareAt(t, rows, cols) == Prod(SelD(t, rows)) = Prod(SelD(t, cols))
Fits(t, w, ps) == w = <<>> \/ Shapeless(t) \/ \A j \in 1..Len(ps) : t.D[ps[j]] = Len(w)
Ask(H, e) ==
    LET t == IF "a" \in DOMAIN e THEN H[e.a] ELSE Gone
    IN CASE e.op \in {"index", "indices", "shapes", "rename", "untag", "copy", "tolike", "copylist"} -> TRUE
         [] e.op = "tag" -> \A i \in 1..Rank(t) : ~HasBar(t.L[i])
         [] e.op \in {"legsof", "front"} -> \A j \in 1..Len(e.labs) : Mentions(t.L, e.labs)[j] # 0
         [] e.op = "rearrange" -> BagEq(e.labs, t.L)
         [] e.op = "totensor" -> ~Shapeless(t) /\ BagEq(e.labs, t.L)
         [] e.op \in {"frontlegs", "complement"} -> Legit(t, e.ps)
         [] e.op = "matrix" -> ~Shapeless(t) /\ Legit(t, e.ps \o e.qs) /\ Len(e.ps \o e.qs) = Rank(t)
         [] e.op = "trace" -> ~Shapeless(t) /\ Legit(t, e.ps \o e.qs) /\ Len(e.ps \o e.qs) = Rank(t) /\ SquareAt(t, e.ps, e.qs)
         [] e.op = "fuselegs" -> ~Diagonal(t) /\ e.ps # <<>> /\ Legit(t, e.ps)
         [] e.op = "fuse" -> ~Diagonal(t) /\ e.labs # <<>> /\ Legit(t, [j \in 1..Len(e.labs) |-> First(t.L, e.labs[j])])
         [] e.op = "sumleg" -> Fits(t, e.w, <<e.p>>)
         [] e.op = "sumout" -> e.w = <<>> \/ Shapeless(t) \/ (Len(e.labs) = 1 /\ \A x \in PosOf(t.L, e.labs[1]) : t.D[x] = Len(e.w))
         [] e.op \in {"contract", "contractlist"} -> \A x, y \in Rng(e.as) : Shapeless(H[x]) = Shapeless(H[y])

Effect(H, e) ==
    LET t == IF "a" \in DOMAIN e THEN H[e.a] ELSE Gone
    IN CASE e.op \in {"index", "indices", "shapes", "legsof", "front", "rearrange", "totensor", "frontlegs", "complement", "matrix", "trace"} -> H
         [] e.op = "rename" -> WithNames(H, e.a, RenameSeq(t.L, e.from, e.to))
         [] e.op = "tag" -> WithNames(H, e.a, MapSeq(t.L, LAMBDA x : e.name \o "-" \o x))
         [] e.op = "untag" -> WithNames(H, e.a, MapSeq(t.L, Untagged))
         [] e.op = "copy" -> Append(H, Unbonded(t))
         [] e.op = "tolike" -> Append(H, Unbonded(Likened(t)))
         [] e.op = "copylist" -> Copies(H, e.as, e.like, e.outg)
         [] e.op = "fuselegs" -> Place(H, e.a, Fused(t, e.ps, e.new))
         [] e.op = "fuse" -> Place(H, e.a, Fused(t, [j \in 1..Len(e.labs) |-> First(t.L, e.labs[j])], e.new))
         [] e.op = "sumleg" -> Place(H, e.a, Summed(t, e.p, e.w))
         [] e.op = "sumout" -> Place(H, e.a, SummedAll(t, e.labs, e.back, e.w))
         [] e.op = "contract" -> Consume(H, e.as)
         [] e.op = "contractlist" -> IF e.inplace THEN Consume(H, e.as) ELSE Append(H, Unbonded(Product(H, e.as)))

\* the legs that must come first afterwards
FrontOf(H, e) == CASE e.op \in {"front", "rearrange", "totensor"} -> Mentions(H[e.a].L, e.labs)
                   [] e.op = "frontlegs" -> e.ps
                   [] OTHER -> <<>>

(* --------------------------------------------------- returned values *)
SameData(r, ret) == ret.re = r.re /\ (ret.im = r.im \/ (r.im = <<>> /\ AllZero(ret.im)))
Answer(H, G, e) ==
    LET t == IF "a" \in DOMAIN e THEN H[e.a] ELSE Gone
    IN CASE e.op = "index" -> e.ret = Find(t.L, e.lab, e.back) - 1
         [] e.op = "indices" -> e.ret = [j \in 1..Len(e.labs) |-> TwoEnded(t.L, e.labs, e.back)[j] - 1]
         [] e.op = "shapes" -> e.ret = [j \in 1..Len(e.labs) |->
                                          LET i == Find(t.L, e.labs[j], e.back) IN IF i = 0 THEN -1 ELSE t.D[i]]
         [] e.op = "legsof" -> e.ret = Mentions(t.L, e.labs)
         [] e.op = "complement" -> e.ret = RestOf(t, e.ps)
         [] e.op = "totensor" -> LET ps == Mentions(t.L, e.labs) IN e.ret.D = SelD(t, ps) /\ SameData(ReadIn(t, ps), e.ret)
         [] e.op = "matrix" -> /\ e.ret.D = <<Prod(SelD(t, e.ps)), Prod(SelD(t, e.qs))>>
                               /\ SameData(ReadIn(t, e.ps \o e.qs), e.ret)
         [] e.op = "trace" -> e.ret = Trace(ValueOf(t), Dgs(e.ps), Dgs(e.qs))
         [] OTHER -> TRUE

(* -------------------------------------------- verdict on one record *)
Coherent(G) == \A a \in 1..Len(G) : LET t == G[a] IN
    t.k = "gone" \/
    /\ t.ok
    /\ \A i \in 1..Rank(t) : t.P[i] = Open \/ /\ t.P[i][1] \in 1..Len(G) /\ t.P[i][2] \in 1..Rank(G[t.P[i][1]])
                                              /\ G[t.P[i][1]].P[t.P[i][2]] = <<a, i>>
                                              /\ G[t.P[i][1]].D[t.P[i][2]] = t.D[i]
RecordBad(e) ==
    LET ask == Ask(e.before, e)
    IN IF e.failed = "no answer" THEN "no answer"
       ELSE IF ask /\ e.failed # "" THEN "valid request rejected: " \o e.failed
       ELSE IF ~ask /\ e.failed = "" THEN "invalid request accepted"
       ELSE IF e.broken # "" THEN "unreadable: " \o e.broken
       ELSE IF ~Coherent(e.after) THEN "legs, bonds and owners disagree"
       ELSE IF ~ask THEN IF SameHeap(e.before, e.after) THEN "" ELSE "rejected request changed the tensors"
       ELSE IF ~Answer(e.before, e.after, e) THEN "returned value"
       ELSE IF ~SameFront(Effect(e.before, e), e.after, IF FrontOf(e.before, e) = <<>> THEN 0 ELSE e.a, FrontOf(e.before, e))
       THEN "legs, bonds or entries" ELSE ""
=============================================================================

------------------------------- MODULE CtlNet -------------------------------
(***************************************************************************)
(* The state machine of CTL: a heap of live tensors whose legs may be      *)
(* bonded with each other, and the operations of the library on it.        *)
(*                                                                         *)
(* A heap H maps a tensor id (a string) to a record                        *)
(*   k       kind: "dense", "diag", or shape-only "like", "dlike"          *)
(*   L, D    names and dimensions of the legs                              *)
(*   P       for each leg the address <<tensor, leg name>> of the leg it   *)
(*           is bonded with, or Free                                       *)
(*   re, im  the entries (row-major in the order of L); a diagonal tensor  *)
(*           is its dense expansion, a shape-only tensor has no entries    *)
(* The order of L carries no meaning: heaps are compared up to it.         *)
(*                                                                         *)
(* Every operation is an event e (a record with field op); Ok(H, e) says   *)
(* whether it is a valid request, Post(H, e) is the heap after it, and     *)
(* RetOk(H, H2, e) judges what it returned.                                *)
(***************************************************************************)
EXTENDS Ein

Free == <<"", "">>
IsLike(t) == t.k \in {"like", "dlike"}
IsDiag(t) == t.k \in {"diag", "dlike"}

Has(t, l) == l \in Rng(t.L)
HasAll(t, ls) == Rng(ls) \subseteq Rng(t.L) /\ Distinct(ls)
PAt(t, l) == t.P[IndexOf(t.L, l)]
DAt(t, l) == t.D[IndexOf(t.L, l)]
FreeLegs(t) == {l \in Rng(t.L) : PAt(t, l) = Free}
Val(t) == [L |-> t.L, D |-> t.D, re |-> t.re, im |-> t.im]
NoFree(n) == [i \in 1..n |-> Free]

\* characters
HasDash(s) == \E i \in 1..Len(s) : SubSeq(s, i, i) = "-"
FirstDash(s) == CHOOSE i \in 1..Len(s) : SubSeq(s, i, i) = "-" /\ \A j \in 1..(i - 1) : SubSeq(s, j, j) # "-"
AfterDash(s) == IF HasDash(s) THEN SubSeq(s, FirstDash(s) + 1, Len(s)) ELSE s
RECURSIVE Join(_, _)
Join(ss, sep) == IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)

\* a tensor with value v, kind k and bonds P
Mk(k, v, P) == [k |-> k, L |-> v.L, D |-> v.D, P |-> P, re |-> v.re, im |-> v.im]

(***************************************************************************)
(* Consistency: what must be true of every reachable heap.                 *)
(***************************************************************************)
TensorOk(t) == /\ Distinct(t.L)
               /\ Len(t.D) = Len(t.L) /\ Len(t.P) = Len(t.L)
               /\ IF IsLike(t) THEN t.re = <<>> /\ t.im = <<>>
                  ELSE Len(t.re) = Prod(t.D) /\ (t.im = <<>> \/ Len(t.im) = Prod(t.D))
BondOk(H, a, i) == LET p == H[a].P[i]
                   IN p = Free \/ /\ p[1] \in DOMAIN H
                                  /\ Has(H[p[1]], p[2])
                                  /\ PAt(H[p[1]], p[2]) = <<a, H[a].L[i]>>
                                  /\ DAt(H[p[1]], p[2]) = H[a].D[i]
                                  /\ p # <<a, H[a].L[i]>>
Consistent(H) == \A a \in DOMAIN H : TensorOk(H[a]) /\ \A i \in 1..Len(H[a].L) : BondOk(H, a, i)

(***************************************************************************)
(* Building blocks.                                                        *)
(***************************************************************************)
\* rewrite all bond addresses with g
MapAddr(H, g(_)) == [a \in DOMAIN H |-> [H[a] EXCEPT !.P = MapSeq(H[a].P, g)]]
Put(H, r, t) == [x \in DOMAIN H \cup {r} |-> IF x = r THEN t ELSE H[x]]
Drop(H, S) == [x \in DOMAIN H \ S |-> H[x]]

\* rename the legs of a with f
RenameLegs(H, a, f(_)) ==
    LET H1 == [H EXCEPT ![a].L = MapSeq(H[a].L, f)]
    IN MapAddr(H1, LAMBDA p : IF p # Free /\ p[1] = a THEN <<a, f(p[2])>> ELSE p)

\* leg l after renaming the legs from[i] to to[i], all at once
RenameFrom(l, from, to) == IF l \in Rng(from) THEN to[IndexOf(from, l)] ELSE l

\* contraction of all tensors as[1..n] over the bonds for which cut(address) holds; the
\* index of leg l of the i-th tensor is called <digit i>l, a bond by the smaller of its ends
Digit(i) == SubSeq("123456789abcdefghijklmnop", i, i)
PosIn(as, t) == IndexOf(as, t)
LegName(H, as, i, l, cut(_)) ==
    LET p == PAt(H[as[i]], l)
    IN IF p # Free /\ p[1] \in Rng(as) /\ cut(<<as[i], l>>) /\ PosIn(as, p[1]) < i
       THEN Digit(PosIn(as, p[1])) \o p[2]
       ELSE Digit(i) \o l
RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF Len(ss) = 0 THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))
KeptLegs(H, as, i, cut(_)) == SelectSeq(H[as[i]].L, LAMBDA l : ~cut(<<as[i], l>>))

ContractValue(H, as, cut(_)) ==
    LET n == Len(as)
        terms == TLCEval([i \in 1..n |-> [Val(H[as[i]]) EXCEPT
                     !.L = MapSeq(H[as[i]].L, LAMBDA l : LegName(H, as, i, l, cut))]])
        out == TLCEval(FlatSeq([i \in 1..n |-> MapSeq(KeptLegs(H, as, i, cut), LAMBDA l : Digit(i) \o l)]))
        strip(s) == SubSeq(s, 2, Len(s))
    IN IF \E i \in 1..n : IsLike(H[as[i]])
       THEN [L |-> MapSeq(out, strip),
             D |-> FlatSeq([i \in 1..n |-> MapSeq(KeptLegs(H, as, i, cut), LAMBDA l : DAt(H[as[i]], l))]),
             re |-> <<>>, im |-> <<>>]
       ELSE Relabel(EinsumSeq(terms, out), strip)

ContractLabels(H, as, cut(_)) == FlatSeq([i \in 1..Len(as) |-> KeptLegs(H, as, i, cut)])
ContractBonds(H, as, cut(_)) ==
    FlatSeq([i \in 1..Len(as) |-> MapSeq(KeptLegs(H, as, i, cut), LAMBDA l : PAt(H[as[i]], l))])
ResKind(H, as) == IF IsLike(H[as[1]]) THEN "like" ELSE "dense"

\* the operands are replaced by the result, which inherits their legs and bonds
ConsumeContract(H, as, r, cut(_)) ==
    LET g(p) == IF p # Free /\ p[1] \in Rng(as) THEN <<r, p[2]>> ELSE p
        res == Mk(ResKind(H, as), ContractValue(H, as, cut), ContractBonds(H, as, cut))
    IN MapAddr(Put(Drop(H, Rng(as)), r, res), g)
\* the operands stay; the result has no bonds
FreshContract(H, as, r, cut(_)) ==
    LET v == ContractValue(H, as, cut)
    IN Put(H, r, Mk(ResKind(H, as), v, NoFree(Len(v.L))))

InternalCut(H, as, p) == LET q == PAt(H[p[1]], p[2]) IN q # Free /\ q[1] \in Rng(as)
SharedLabels(H, a, b) == SelectSeq(H[a].L, LAMBDA l : PAt(H[a], l)[1] = b /\ PAt(H[a], l) # Free)
SelfBonded(H, a) == \E l \in Rng(H[a].L) : PAt(H[a], l)[1] = a

SameKind(H, as) == \A i, j \in 1..Len(as) : IsLike(H[as[i]]) = IsLike(H[as[j]])
NoSelf(H, as) == \A i \in 1..Len(as) : ~SelfBonded(H, as[i])

(***************************************************************************)
(* Valid requests.                                                         *)
(***************************************************************************)
Square(t, rows, cols) == Prod(MapSeq(rows, LAMBDA l : DAt(t, l))) = Prod(MapSeq(cols, LAMBDA l : DAt(t, l)))
RowsOf(e) == e.rows
ColsOf(e) == e.cols

Ok(H, e) ==
    CASE e.op \in {"new", "setxp", "pokeinput", "drop", "poke", "copy", "tolike", "labels"} -> TRUE
      [] e.op = "copylist" -> TRUE
      \* asking the bond of leg l of a for its leg at b, or for the leg opposite to leg m of b
      [] e.op = "side" -> e.b \in {e.a, PAt(H[e.a], e.l)[1]}
      [] e.op = "other" -> <<e.b, e.m>> \in {<<e.a, e.l>>, PAt(H[e.a], e.l)}
      [] e.op = "link" -> /\ Len(e.la) = Len(e.lb)
                          /\ HasAll(H[e.a], e.la) /\ HasAll(H[e.b], e.lb)
                          /\ \A i \in 1..Len(e.la) : DAt(H[e.a], e.la[i]) = DAt(H[e.b], e.lb[i])
      [] e.op = "rename" -> Len(e.from) = Len(e.to)
      [] e.op = "tag" -> \A l \in Rng(H[e.a].L) : ~HasDash(l)
      [] e.op = "untag" -> TRUE
      [] e.op = "front" -> HasAll(H[e.a], e.labels)
      [] e.op = "rearrange" -> IsPerm(e.labels, H[e.a].L)
      [] e.op = "totensor" -> ~IsLike(H[e.a]) /\ (e.given => IsPerm(e.labels, H[e.a].L))
      [] e.op = "tomatrix" -> ~IsLike(H[e.a]) /\ IsPerm(e.rows \o e.cols, H[e.a].L)
      [] e.op = "trace" -> ~IsLike(H[e.a]) /\ IsPerm(e.rows \o e.cols, H[e.a].L) /\ Square(H[e.a], e.rows, e.cols)
      [] e.op \in {"tovector", "norm"} -> ~IsLike(H[e.a])
      [] e.op = "single" -> ~IsLike(H[e.a]) /\ H[e.a].L = <<>>
      [] e.op = "fuse" -> ~IsDiag(H[e.a]) /\ e.labels # <<>> /\ HasAll(H[e.a], e.labels)
      [] e.op = "sumout" -> e.w = <<>> \/ IsLike(H[e.a])
                               \/ \A i \in 1..Len(e.labels) : Has(H[e.a], e.labels[i]) => Len(e.w) = DAt(H[e.a], e.labels[i])
      [] e.op = "contract" -> SameKind(H, <<e.a, e.b>>)
      [] e.op = "contractlist" -> SameKind(H, e.as)
      [] e.op = "merge" -> /\ IsLike(H[e.a]) = IsLike(H[e.b])
                           /\ Len(SharedLabels(H, e.a, e.b)) > 1 => ~IsDiag(H[e.a]) /\ ~IsDiag(H[e.b])

(***************************************************************************)
(* Effects.                                                                *)
(***************************************************************************)
NewValue(e) == IF e.kind \in {"like", "dlike"} THEN [L |-> e.L, D |-> e.D, re |-> <<>>, im |-> <<>>]
               ELSE IF e.kind = "diag" THEN DiagExpand(e.L, e.D, e.re, e.im)
               ELSE Canon([L |-> e.L, D |-> e.D, re |-> e.re, im |-> e.im])

\* fused index of the shared bonds, taken in the order ord of a's labels
Fused(t, ls, new) == IF IsLike(t)
                     THEN LET rest == Without(t.L, Rng(ls))
                          IN [L |-> <<new>> \o rest,
                              D |-> <<Prod(MapSeq(ls, LAMBDA x : DAt(t, x)))>> \o MapSeq(rest, LAMBDA x : DAt(t, x)),
                              re |-> <<>>, im |-> <<>>]
                     ELSE Fuse(Val(t), ls, new)
FusedT(t, ls, new, p) == LET rest == Without(t.L, Rng(ls))
                         IN Mk(t.k, Fused(t, ls, new), <<p>> \o MapSeq(rest, LAMBDA x : PAt(t, x)))

MergePost(H, e, ord) ==
    LET sh == SharedLabels(H, e.a, e.b)
        oB == MapSeq(ord, LAMBDA l : PAt(H[e.a], l)[2])
        nA == IF e.name = "" THEN Join(ord, "|") ELSE e.name
        nB == IF e.name = "" THEN Join(oB, "|") ELSE e.name
    IN IF Len(sh) = 0 THEN H
       ELSE IF Len(sh) = 1
       THEN IF e.name = "" THEN H
            ELSE RenameLegs(RenameLegs(H, e.a, LAMBDA l : IF l = ord[1] THEN e.name ELSE l),
                            e.b, LAMBDA l : IF l = oB[1] THEN e.name ELSE l)
       ELSE [H EXCEPT ![e.a] = FusedT(H[e.a], ord, nA, <<e.b, nB>>),
                      ![e.b] = FusedT(H[e.b], oB, nB, <<e.a, nA>>)]

RECURSIVE SumOuts(_, _, _, _)
SumOuts(t, ls, w, wi) ==
    IF ls = <<>> THEN t
    ELSE LET l == Head(ls)
         IN IF ~Has(t, l) THEN SumOuts(t, Tail(ls), w, wi)
            ELSE LET rest == Without(t.L, {l})
                     v == IF IsLike(t) THEN [L |-> rest, D |-> MapSeq(rest, LAMBDA x : DAt(t, x)), re |-> <<>>, im |-> <<>>]
                          ELSE SumOutC(Val(t), l, w, wi)
                 IN SumOuts(Mk(t.k, v, MapSeq(rest, LAMBDA x : PAt(t, x))), Tail(ls), w, wi)

\* copies rs[i] of as[i]; bonds inside the list are reproduced, with out the bonds
\* leaving the list move from the originals to the copies
CopyList(H, e) ==
    LET as == e.as  rs == e.rs
        Cp(a) == rs[PosIn(as, a)]
        Kd(t) == IF e.like THEN (IF IsDiag(t) THEN "dlike" ELSE "like") ELSE t.k
        Bond(p) == IF p = Free THEN Free
                   ELSE IF p[1] \in Rng(as) THEN <<Cp(p[1]), p[2]>>
                   ELSE IF e.outg THEN p ELSE Free
        Copy(a) == LET t == H[a] IN [k |-> Kd(t), L |-> t.L, D |-> t.D,
                                     P |-> [i \in 1..Len(t.P) |-> Bond(t.P[i])],
                                     re |-> IF e.like THEN <<>> ELSE t.re, im |-> IF e.like THEN <<>> ELSE t.im]
        Orig(x) == IF ~e.outg THEN H[x]
                   ELSE IF x \in Rng(as)
                   THEN [H[x] EXCEPT !.P = [i \in 1..Len(H[x].P) |->
                            IF H[x].P[i] # Free /\ H[x].P[i][1] \notin Rng(as) THEN Free ELSE H[x].P[i]]]
                   ELSE [H[x] EXCEPT !.P = [i \in 1..Len(H[x].P) |->
                            IF H[x].P[i] # Free /\ H[x].P[i][1] \in Rng(as)
                            THEN <<Cp(H[x].P[i][1]), H[x].P[i][2]>> ELSE H[x].P[i]]]
    IN [x \in DOMAIN H \cup Rng(rs) |-> IF x \in Rng(rs) THEN Copy(as[IndexOf(rs, x)]) ELSE Orig(x)]

SetP(t, l, p) == [t EXCEPT !.P[IndexOf(t.L, l)] = p]
\* a leg is in one bond at most: the legs ls of a leave theirs, and so do their partners
Unlinked(H, a, ls) ==
    LET S == {<<a, l>> : l \in Rng(ls)} \cup {PAt(H[a], l) : l \in Rng(ls) \cap Rng(H[a].L)}
    IN [x \in DOMAIN H |-> [H[x] EXCEPT !.P = [i \in 1..Len(H[x].P) |-> IF <<x, H[x].L[i]>> \in S THEN Free ELSE H[x].P[i]]]]
RECURSIVE Links(_, _, _, _, _)
Links(H, a, la, b, lb) ==
    IF la = <<>> THEN H
    ELSE LET H0 == Unlinked(Unlinked(H, a, <<Head(la)>>), b, <<Head(lb)>>)
             H1 == [H0 EXCEPT ![a] = SetP(H0[a], Head(la), <<b, Head(lb)>>)]
             H2 == [H1 EXCEPT ![b] = SetP(H1[b], Head(lb), <<a, Head(la)>>)]
         IN Links(H2, a, Tail(la), b, Tail(lb))

Post(H, e) ==
    CASE e.op = "setxp" -> <<>> \* another array library: the tensors of the one before are given up
      [] e.op \in {"pokeinput", "labels", "side", "other", "front", "rearrange", "totensor", "tomatrix", "trace", "tovector", "norm", "single"} -> H
      [] e.op = "new" -> LET v == NewValue(e) IN Put(H, e.r, Mk(e.kind, v, NoFree(Len(v.L))))
      [] e.op = "drop" -> Drop(H, {e.a})
      [] e.op = "poke" -> LET v == NewValue(e) IN [H EXCEPT ![e.a].re = Permute(v, H[e.a].L).re, ![e.a].im = Permute(v, H[e.a].L).im]
      [] e.op = "copy" -> Put(H, e.r, [H[e.a] EXCEPT !.P = NoFree(Len(H[e.a].P))])
      [] e.op = "tolike" -> Put(H, e.r, [H[e.a] EXCEPT !.P = NoFree(Len(H[e.a].P)), !.re = <<>>, !.im = <<>>,
                                                       !.k = IF IsDiag(H[e.a]) THEN "dlike" ELSE "like"])
      [] e.op = "copylist" -> CopyList(H, e)
      [] e.op = "link" -> Links(H, e.a, e.la, e.b, e.lb)
      [] e.op = "rename" -> RenameLegs(H, e.a, LAMBDA l : RenameFrom(l, e.from, e.to))
      [] e.op = "tag" -> RenameLegs(H, e.a, LAMBDA l : e.name \o "-" \o l)
      [] e.op = "untag" -> RenameLegs(H, e.a, AfterDash)
      [] e.op = "fuse" -> LET H0 == Unlinked(H, e.a, e.labels)
                           IN [H0 EXCEPT ![e.a] = FusedT(H0[e.a], e.labels, e.new, Free)]
      [] e.op = "sumout" -> LET H0 == Unlinked(H, e.a, e.labels)
                             IN [H0 EXCEPT ![e.a] = SumOuts(H0[e.a], e.labels, e.w, IF "wi" \in DOMAIN e THEN e.wi ELSE <<>>)]
      [] e.op = "contract" -> LET S == IF e.all THEN Rng(SharedLabels(H, e.a, e.b)) ELSE Rng(e.bonds)
                                  Cut(p) == \/ p[1] = e.a /\ p[2] \in S
                                            \/ p[1] = e.b /\ LET q == PAt(H[e.b], p[2]) IN q # Free /\ q[1] = e.a /\ q[2] \in S
                              IN ConsumeContract(H, <<e.a, e.b>>, e.r, Cut)
      [] e.op = "contractlist" -> IF e.inplace THEN ConsumeContract(H, e.as, e.r, LAMBDA p : InternalCut(H, e.as, p))
                                  ELSE FreshContract(H, e.as, e.r, LAMBDA p : InternalCut(H, e.as, p))

\* the legs fused by a merge are listed in some order: every order is acceptable,
\* as long as both ends use the same
Posts(H, e) == IF e.op = "merge"
               THEN {MergePost(H, e, ord) : ord \in {TLCEval(MapSeq(o, LAMBDA i : SharedLabels(H, e.a, e.b)[i])) :
                        o \in SetToSeqs(1..Len(SharedLabels(H, e.a, e.b)))}}
               ELSE {Post(H, e)}

(***************************************************************************)
(* Returned values.                                                        *)
(***************************************************************************)
SameArray(v, L, ret) == LET u == Permute(v, L)
                        IN ret.re = u.re /\ (ret.im = u.im \/ (u.im = <<>> /\ AllZero(ret.im)))

RetOk(H, H2, e) ==
    CASE e.op = "totensor" -> /\ IsPerm(e.ret.L, H[e.a].L) /\ (e.given => e.ret.L = e.labels)
                              /\ e.ret.D = MapSeq(e.ret.L, LAMBDA l : DAt(H[e.a], l))
                              /\ SameArray(Val(H[e.a]), e.ret.L, e.ret)
      [] e.op = "tovector" -> IF IsDiag(H[e.a]) THEN TRUE
                              ELSE IsPerm(e.ret.L, H[e.a].L) /\ SameArray(Val(H[e.a]), e.ret.L, e.ret)
      [] e.op = "tomatrix" -> /\ e.ret.D = <<Prod(MapSeq(e.rows, LAMBDA l : DAt(H[e.a], l))),
                                             Prod(MapSeq(e.cols, LAMBDA l : DAt(H[e.a], l)))>>
                              /\ SameArray(Val(H[e.a]), e.rows \o e.cols, e.ret)
      [] e.op = "trace" -> e.ret = Trace(Val(H[e.a]), e.rows, e.cols)
      [] e.op = "norm" -> e.ret = Norm2(Val(H[e.a]))
      [] e.op = "single" -> e.ret = <<H[e.a].re[1], ImAt(Val(H[e.a]), 1)>>
      [] e.op \in {"front", "rearrange"} -> SubSeq(e.ret, 1, Len(e.labels)) = e.labels
      [] e.op = "labels" -> /\ IsPerm(e.ret.L, H[e.a].L)
                            /\ e.ret.D = MapSeq(e.ret.L, LAMBDA l : DAt(H[e.a], l))
                            /\ e.ret.n = Len(H[e.a].L)
                            /\ e.ret.size = Prod(H[e.a].D)
                            /\ e.ret.ask = MapSeq(e.labels, LAMBDA l : IF Has(H[e.a], l) THEN DAt(H[e.a], l) ELSE -1)
                            /\ e.ret.has = (Rng(e.labels) \subseteq Rng(H[e.a].L))
                            /\ e.ret.one = MapSeq(e.labels, LAMBDA l : Has(H[e.a], l))
                            /\ (e.ret.n > 0 /\ Cardinality(Rng(H[e.a].D)) = 1) => e.ret.bd = H[e.a].D[1] /\ e.ret.chi = H[e.a].D[1]
                            /\ e.ret.ty = (IF IsDiag(H[e.a]) THEN "DiagonalTensor" ELSE "Tensor") \o (IF IsLike(H[e.a]) THEN "Like" ELSE "")
      [] e.op = "side" -> LET p == PAt(H[e.a], e.l)
                          IN e.ret \in {<<e.a, e.l>>, p} /\ e.ret[1] = e.b
      [] e.op = "other" -> LET p == PAt(H[e.a], e.l)
                           IN e.ret = IF <<e.b, e.m>> = p THEN <<e.a, e.l>> ELSE p
      [] e.op = "fuse" -> e.ret = e.new
      [] OTHER -> TRUE

(***************************************************************************)
(* Comparison of heaps.                                                    *)
(***************************************************************************)
SameLegs(t, u) == /\ IsPerm(t.L, u.L)
                  /\ \A l \in Rng(t.L) : DAt(t, l) = DAt(u, l)
SameBonds(t, u) == \A l \in Rng(t.L) : PAt(t, l) = PAt(u, l)
SameEntries(t, u) == IF IsLike(u) THEN TRUE
                     ELSE LET v == Permute(Val(t), u.L) IN v.re = u.re /\ v.im = u.im

\* the first way in which the heap G observed differs from the heap H expected, "" if none
HeapDiff(H, G) ==
    IF DOMAIN H # DOMAIN G THEN "live tensors"
    ELSE IF \E a \in DOMAIN H : IsLike(H[a]) # IsLike(G[a]) THEN "kind"
    ELSE IF \E a \in DOMAIN H : ~SameLegs(H[a], G[a]) THEN "legs"
    ELSE IF \E a \in DOMAIN H : ~SameBonds(H[a], G[a]) THEN "bonds"
    ELSE IF \E a \in DOMAIN H : ~SameEntries(H[a], G[a]) THEN "entries"
    ELSE ""
=============================================================================

-------------------------------- MODULE Mps --------------------------------
(***************************************************************************)
(* Matrix product states with open ends.                                   *)
(*                                                                         *)
(* A state is [order, v, chi]: order is the sequence of outer indices, one *)
(* per site (a fused site carries a sequence of indices), v the tensor     *)
(* represented, in fixed point (entries times Scale) with the outer        *)
(* indices as names, chi the bound on the bonds.                           *)
(*                                                                         *)
(* An observation o of the real object has                                 *)
(*   order  token of the partner of the outer leg of each site, "" if free *)
(*   v      the network of the sites evaluated by numpy, names "1".."n"    *)
(*   B      dimensions of the bonds between neighbours                     *)
(*   gl,gr  site contracted with its conjugate over (left, outer) and over *)
(*          (outer, right): the identity for an isometry towards the right *)
(*          and towards the left                                           *)
(*   chi, centre (-1: none)                                                *)
(***************************************************************************)
EXTENDS Split

MTol == 30
MNear(x, y) == LET d == x - y IN d <= MTol /\ 0 - d <= MTol
CloseTo(f, v) == /\ IsPerm(f.L, v.L)
                 /\ \A x \in Rng(v.L) : DimOf(f, x) = DimOf(v, x)
                 /\ LET u == Permute(v, f.L)
                    IN \A p \in 1..Len(f.re) : MNear(f.re[p], u.re[p]) /\ MNear(ImAt(f, p), ImAt(u, p))
Scaled(v) == [v EXCEPT !.re = TLCEval([i \in 1..Len(v.re) |-> Scale * v.re[i]]),
                       !.im = TLCEval([i \in 1..Len(v.im) |-> Scale * v.im[i]])]

\* sites: values with distinct names; the names shared by two sites are summed
Represented(sites, outer) == EinsumSeq(sites, outer)

(***************************************************************************)
(* Moves of sites (indices from 1).                                        *)
(***************************************************************************)
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
PutAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Moved(s, a, b) == PutAt(DropAt(s, a), b, s[a])
SwappedAt(s, a, b) == [s EXCEPT ![a] = s[b], ![b] = s[a]]
\* every way of making the sites a # b neighbours, in their order or not, that keeps the others in order
Adjacents(s, a, b) == LET rest == SelectSeq(s, LAMBDA x : x # s[a] /\ x # s[b])
                      IN {SubSeq(rest, 1, k) \o p \o SubSeq(rest, k + 1, Len(rest)) : k \in 0..Len(rest), p \in {<<s[a], s[b]>>, <<s[b], s[a]>>}}
FusedAt(s, i) == SubSeq(s, 1, i - 1) \o <<s[i] \o s[i + 1]>> \o SubSeq(s, i + 2, Len(s))

Nr(n) == [i \in 1..n |-> ToString(i)]
Flat(order) == FoldLeft(LAMBDA a, s : a \o s, <<>>, order)
\* v with its indices in the given order, one per site
InOrder(v, order) == LET u == Permute(v, Flat(order))
                     IN [L |-> Nr(Len(order)), D |-> MapSeq(order, LAMBDA s : Prod(MapSeq(s, LAMBDA x : DimOf(v, x)))), re |-> u.re, im |-> u.im]
\* and back: an observed array becomes a value over the tokens
FromOrder(f, order, v) == [L |-> Flat(order), D |-> MapSeq(Flat(order), LAMBDA x : DimOf(v, x)), re |-> f.re, im |-> f.im]

Name(s) == Join(s, "*")
OrderMatches(o, order) == /\ Len(o.order) = Len(order)
                          /\ \A i \in 1..Len(order) : o.order[i] = "" \/ o.order[i] = Name(order[i])
Isometric(o, i, c) == IF i < c THEN IsIdentity(o.gl[i], o.B[i]) ELSE IsIdentity(o.gr[i], o.B[i - 1])
CanonicalAt(o, c) == \A i \in 1..Len(o.order) : i # c => Isometric(o, i, c)
\* clearly not the identity
Off(g, n) == \E i, j \in 1..n : Abs(g.re[(i - 1) * n + j] - (IF i = j THEN Scale ELSE 0)) > 50 \/ Abs(ImAt(g, (i - 1) * n + j)) > 50
NotCanonicalAt(o, c) == \E i \in 1..Len(o.order) : i # c /\ (IF i < c THEN Off(o.gl[i], o.B[i]) ELSE Off(o.gr[i], o.B[i - 1]))

\* a recorded centre is a true one
CentreTrue(o) == o.centre = -1 \/ (o.centre + 1 \in 1..Len(o.order) /\ CanonicalAt(o, o.centre + 1))
Within(o, chi) == \A i \in 1..Len(o.B) : o.B[i] <= chi
Sound(o) == Len(o.B) = Len(o.order) - 1 /\ Len(o.gl) = Len(o.order) /\ Len(o.gr) = Len(o.order)

(***************************************************************************)
(* One step of a history.  e.op is the request, with indices from 0 as in  *)
(* the library; e.obs the state observed afterwards; e.rank the rank the   *)
(* exchanged pair has (0: not known).                                      *)
(***************************************************************************)
Idx(i, n) == i \in 0..(n - 1)
StepOk(S, e) ==
    LET n == Len(S.order)
    IN CASE e.op = "canon" -> Idx(e.a, n)
         [] e.op = "swap" -> Idx(e.a, n) /\ Idx(e.b, n) /\ Abs(e.a - e.b) = 1
         [] e.op = "move" -> Idx(e.a, n) /\ Idx(e.b, n)
         [] e.op = "adj" -> Idx(e.a, n) /\ Idx(e.b, n) /\ e.a # e.b
         [] e.op = "merge" -> Idx(e.a, n) /\ Idx(e.a + 1, n)
         [] e.op = "set" -> Idx(e.a, n)
         [] e.op = "check" -> IF e.a = -1 THEN S.centre # -1 ELSE Idx(e.a, n)
         [] OTHER -> TRUE
\* the orders the request may lead to
Orders(S, e) ==
    CASE e.op = "swap" -> {SwappedAt(S.order, e.a + 1, e.b + 1)}
      [] e.op = "move" -> {Moved(S.order, e.a + 1, e.b + 1)}
      [] e.op = "adj" -> Adjacents(S.order, e.a + 1, e.b + 1)
      [] e.op = "merge" -> {FusedAt(S.order, e.a + 1)}
      [] OTHER -> {S.order}
Still(S, e) == e.op \in {"check", "copy", "query", "toobs"} \/ (e.op = "move" /\ e.a = e.b)
\* may the request have to truncate?
MayTruncate(S, e) == /\ e.op \in {"swap", "move", "adj"} /\ ~Still(S, e)
                     /\ ~(e.op = "swap" /\ e.rank > 0 /\ e.rank <= S.chi)
                     /\ S.chi < 1000
Factor(S, e) == IF e.op # "set" THEN S.v
                ELSE [S.v EXCEPT !.re = TLCEval([i \in 1..Len(S.v.re) |-> e.k * S.v.re[i]]),
                                 !.im = TLCEval([i \in 1..Len(S.v.im) |-> e.k * S.v.im[i]])]

StepBad(S, e) ==
    LET o == e.obs
        cand == {q \in Orders(S, e) : OrderMatches(o, q)}
        q == CHOOSE q \in cand : TRUE
    IN IF ~StepOk(S, e)
       THEN IF e.exc = "" THEN "impossible request accepted"
            ELSE IF ~OrderMatches(o, S.order) \/ ~CloseTo(o.v, InOrder(S.v, S.order)) \/ o.centre # S.centre THEN "refused request changed the state" ELSE ""
       ELSE IF e.exc # "" THEN "valid request refused: " \o e.exc
       ELSE IF ~Sound(o) THEN "sites"
       ELSE IF o.chi # S.chi THEN "chi changed"
       ELSE IF cand = {} THEN "order of the sites"
       ELSE IF e.op = "adj" /\ ~(e.ret[2] = e.ret[1] + 1 /\ Idx(e.ret[1], Len(q)) /\ Idx(e.ret[2], Len(q))
                                 /\ {q[e.ret[1] + 1], q[e.ret[2] + 1]} = {S.order[e.a + 1], S.order[e.b + 1]}) THEN "neighbours returned"
       ELSE IF ~Within(o, S.chi) THEN "bond exceeds chi"
       ELSE IF ~MayTruncate(S, e) /\ ~CloseTo(o.v, InOrder(Factor(S, e), q)) THEN "tensor represented"
       ELSE IF e.op = "canon" /\ ~CanonicalAt(o, e.a + 1) THEN "sites off the centre are no isometries"
       ELSE IF e.op = "canon" /\ o.centre # e.a THEN "centre recorded"
       ELSE IF Still(S, e) /\ o.centre # S.centre THEN "centre changed by a request that changes nothing"
       ELSE IF e.op = "check" /\ e.ret[1] = 1 /\ NotCanonicalAt(o, (IF e.a = -1 THEN S.centre ELSE e.a) + 1) THEN "called canonical"
       ELSE IF e.op = "check" /\ e.ret[1] = 0 /\ CanonicalAt(o, (IF e.a = -1 THEN S.centre ELSE e.a) + 1) THEN "not called canonical"
       ELSE IF e.op \in {"query", "copy"} /\ e.ret # <<1>> THEN "answer of a query"
       ELSE IF ~CentreTrue(o) THEN (IF e.op = "merge" THEN "centre kept by mergeTensor" ELSE "false centre recorded")
       ELSE ""
After(S, e) ==
    IF ~StepOk(S, e) THEN S
    ELSE LET o == e.obs
             q == CHOOSE q \in {q \in Orders(S, e) : OrderMatches(o, q)} : TRUE
         IN [order |-> q, chi |-> S.chi, centre |-> o.centre,
             v |-> TLCEval(IF MayTruncate(S, e) THEN FromOrder(o.v, q, S.v) ELSE Factor(S, e))]

RECURSIVE StepsBad(_, _, _)
StepsBad(S, steps, i) ==
    IF i > Len(steps) THEN ""
    ELSE LET b == StepBad(S, steps[i])
         IN IF b # "" THEN "step " \o ToString(i) \o " " \o steps[i].op \o ": " \o b
            ELSE StepsBad(TLCEval(After(S, steps[i])), steps, i + 1)

\* a state just built: e.sites exact values, e.order tokens by site, e.obs
Built(e) == [order |-> MapSeq(e.order, LAMBDA x : <<x>>), chi |-> e.chi, centre |-> -1,
             v |-> TLCEval(Scaled(Represented(e.sites, e.order)))]
BuiltBad(e, S) ==
    IF ~Sound(e.obs) THEN "sites"
    ELSE IF ~OrderMatches(e.obs, S.order) THEN "order of the sites"
    ELSE IF e.obs.chi # e.chi THEN "chi recorded"
    ELSE IF ~CloseTo(e.obs.v, InOrder(S.v, S.order)) THEN "tensor represented"
    ELSE IF ~CentreTrue(e.obs) THEN "false centre recorded"
    ELSE ""
HistBad(e) ==
    IF e.failed # "" THEN "valid request refused: " \o e.failed
    ELSE LET S == TLCEval(Built(e))
             b == BuiltBad(e, S)
         IN IF b # "" THEN "new: " \o b ELSE StepsBad(S, e.steps, 1)

\* construction of a state from a tensor.  The sites certify a state with bonds of dimension e.bonds
CreateBad(e) ==
    IF e.failed # "" THEN "valid request refused: " \o e.failed
    ELSE LET S == TLCEval(Built(e))
             exact == \A i \in 1..Len(e.bonds) : e.bonds[i] <= e.chi
         IN IF ~CloseTo(e.given, S.v) THEN "certificate does not fit (harness)"
            ELSE IF exact THEN BuiltBad(e, S)
            ELSE IF ~Sound(e.obs) THEN "sites"
            ELSE IF ~OrderMatches(e.obs, S.order) THEN "order of the sites"
            ELSE IF e.obs.chi # e.chi THEN "chi recorded"
            ELSE IF e.obs.v.D # InOrder(S.v, S.order).D THEN "dimensions"
            ELSE ""
CreatedBad(e) == LET b == CreateBad(e) IN IF b # "" THEN b ELSE IF Len(e.order) > 1 /\ ~Within(e.obs, e.chi) THEN "bond exceeds chi" ELSE ""

\* a random state: structure only
RandomBad(e) ==
    IF e.failed # "" THEN (IF e.valid THEN "valid request refused: " \o e.failed ELSE "")
    ELSE IF ~e.valid THEN "impossible request accepted"
    ELSE IF ~Sound(e.obs) \/ Len(e.obs.order) # Len(e.p) THEN "sites"
    ELSE IF e.obs.v.D # e.p THEN "physical dimensions"
    ELSE IF e.obs.B # e.b THEN "virtual dimensions"
    ELSE IF e.obs.chi # e.chi THEN "chi recorded"
    ELSE IF \E i \in 1..Len(e.norms) : ~Near(e.norms[i], Scale) THEN "sites are not normalised"
    ELSE ""

\* lists that are no open chains are refused and left alone
ChainOk(e) == /\ Len(e.ranks) > 0
              /\ \A i \in 1..(Len(e.ranks) - 1) : e.joins[i] = 1
              /\ \A i \in 1..Len(e.ranks) : e.ranks[i] = (IF Len(e.ranks) = 1 THEN e.ranks[i] ELSE IF i \in {1, Len(e.ranks)} THEN 2 ELSE 3)
ListBad(e) ==
    IF ChainOk(e) THEN (IF e.failed # "" THEN "valid request refused: " \o e.failed ELSE "")
    ELSE IF e.failed = "" THEN "impossible request accepted"
    ELSE IF ~e.same THEN "refused request changed the tensors" ELSE ""

(***************************************************************************)
(* Several states: contraction of two over their one common bond, merging  *)
(* of common bonds, contraction of a whole network.  e.sites are the       *)
(* tensors given, e.outer the indices that stay; e.res the network of what *)
(* came out, evaluated by numpy, with the tokens of the partners as names. *)
(***************************************************************************)
WholeBad(e) ==
    IF ~e.valid THEN (IF e.failed = "" THEN "impossible request accepted" ELSE IF ~e.same THEN "refused request changed the states" ELSE "")
    ELSE IF e.failed # "" THEN "valid request refused: " \o e.failed
    ELSE IF \E i \in 1..Len(e.obs) : ~Sound(e.obs[i]) THEN "sites"
    ELSE IF \E i \in 1..Len(e.obs) : e.obs[i].chi # e.wantchi[i] THEN "chi recorded"
    ELSE IF \E i \in 1..Len(e.obs) : ~CentreTrue(e.obs[i]) THEN "false centre recorded"
    ELSE IF e.common # e.wantcommon THEN "common bonds"
    ELSE IF e.tight > 0 /\ e.newdim > e.tight THEN "common bond exceeds chi"
    ELSE IF e.free THEN (LET v == TLCEval(Scaled(Represented(e.sites, e.outer)))
                         \* the legs of the result carry no names of their own
                         IN IF \E q \in SetToSeqs(Rng(e.outer)) : Len(e.res.L) = Len(q) /\ CloseTo(e.res, [v EXCEPT !.L = MapSeq(v.L, LAMBDA x : ToString(IndexOf(q, x)))])
                            THEN "" ELSE "tensor represented")
    ELSE IF ~IsPerm(e.res.L, e.outer) THEN "outer legs"
    ELSE IF e.tight > 0 THEN ""
    ELSE IF ~CloseTo(e.res, Scaled(Represented(e.sites, e.outer))) THEN "tensor represented"
    ELSE ""

MpsBad(e) == CASE e.op = "hist" -> HistBad(e)
               [] e.op = "create" -> CreatedBad(e)
               [] e.op = "random" -> RandomBad(e)
               [] e.op = "list" -> ListBad(e)
               [] OTHER -> WholeBad(e)
=============================================================================

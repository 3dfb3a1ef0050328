------------------------------- MODULE MCNet -------------------------------
(***************************************************************************)
(* CtlNet as a closed model: small populations of linked tensors and every *)
(* operation on them, explored exhaustively to DEPTH steps.                *)
(*                                                                         *)
(* Checked on every reachable heap: Consistent, and on every step the      *)
(* conservation law: contracting everything that is left, and summing out  *)
(* what is free, gives a number that no operation except linking, copying  *)
(* and creating may change (Conserved).                                    *)
(*                                                                         *)
(* With EXPORT = "1" every behaviour of full depth is printed as JSON; the *)
(* harness replays them on the real library, and TraceNet judges the       *)
(* outcome.                                                                *)
(***************************************************************************)
EXTENDS CtlNet, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
Scenario == atoi(IOEnv.SCENARIO)
Export == IOEnv.EXPORT = "1"

VARIABLES heap, hist, cnt, tot, law
vars == <<heap, hist, cnt, tot, law>>

\* deterministic, asymmetric data
Fill(n, s) == [i \in 1..n |-> ((i * i * 3 + i * s + s) % 7) - 3]
NewEv(r, kind, L, D, s, cplx) ==
    LET n == IF kind = "diag" THEN (IF D = <<>> THEN 1 ELSE D[1]) ELSE Prod(D)
    IN [op |-> "new", r |-> r, kind |-> kind, L |-> L, D |-> D,
        re |-> IF kind \in {"like", "dlike"} THEN <<>> ELSE Fill(n, s),
        im |-> IF cplx /\ kind \notin {"like", "dlike"} THEN Fill(n, s + 2) ELSE <<>>, via |-> "labels"]
LinkEv(a, la, b, lb) == [op |-> "link", a |-> a, la |-> la, b |-> b, lb |-> lb, asleg |-> FALSE, bare |-> FALSE]

Prologue(s) ==
    CASE s = 1 -> << NewEv("1", "dense", <<"a", "b">>, <<2, 2>>, 1, FALSE), NewEv("2", "dense", <<"c", "d", "e">>, <<2, 2, 3>>, 2, TRUE),
                     LinkEv("1", <<"b">>, "2", <<"c">>) >>
      [] s = 2 -> << NewEv("1", "diag", <<"a", "b">>, <<2, 2>>, 1, TRUE), NewEv("2", "dense", <<"c", "d">>, <<2, 2>>, 3, FALSE),
                     NewEv("3", "diag", <<"g">>, <<2>>, 2, FALSE), LinkEv("1", <<"b">>, "2", <<"c">>), LinkEv("2", <<"d">>, "3", <<"g">>) >>
      [] s = 3 -> << NewEv("1", "dense", <<"a", "b", "h">>, <<2, 3, 2>>, 1, FALSE), NewEv("2", "dense", <<"c", "d">>, <<3, 2>>, 2, FALSE),
                     LinkEv("1", <<"b", "h">>, "2", <<"c", "d">>) >>
      [] s = 4 -> << NewEv("1", "dense", <<"a", "b">>, <<2, 3>>, 1, TRUE), NewEv("2", "dense", <<"c", "d">>, <<3, 2>>, 2, FALSE),
                     NewEv("3", "dense", <<"g", "h">>, <<2, 2>>, 5, FALSE), LinkEv("1", <<"b">>, "2", <<"c">>),
                     LinkEv("2", <<"d">>, "3", <<"g">>), LinkEv("3", <<"h">>, "1", <<"a">>) >>
      [] s = 5 -> << NewEv("1", "like", <<"a", "b">>, <<2, 3>>, 1, FALSE), NewEv("2", "dlike", <<"c", "d">>, <<3, 3>>, 2, FALSE),
                     NewEv("3", "dense", <<"g">>, <<3>>, 5, FALSE), LinkEv("1", <<"b">>, "2", <<"c">>) >>
      [] s = 6 -> << NewEv("1", "diag", <<"a", "b", "k">>, <<2, 2, 2>>, 1, FALSE), NewEv("2", "diag", <<"c", "d">>, <<2, 2>>, 4, FALSE),
                     NewEv("3", "dense", <<>>, <<>>, 5, TRUE), LinkEv("1", <<"b", "k">>, "2", <<"c", "d">>) >>

RECURSIVE Apply(_, _)
Apply(H, es) == IF es = <<>> THEN H ELSE Apply(Post(H, Head(es)), Tail(es))

Ids(H) == DOMAIN H
FreeOf(H, a) == FreeLegs(H[a])
DistinctLegs(H, as, cut(_)) == Distinct(ContractLabels(H, as, cut))
AllSeq(H) == SetToSeq(DOMAIN H)

Events(H, r) ==
    {LinkEv(a, <<l>>, b, <<m>>) : <<a, l, b, m>> \in
        {q \in UNION {{<<a, l, b, m>> : l \in FreeOf(H, a), m \in FreeOf(H, b)} : a \in Ids(H), b \in Ids(H)} : q[1] # q[3]}}
    \cup {[op |-> "contract", a |-> q[1], b |-> q[2], r |-> r, all |-> TRUE, bonds |-> <<>>, matmul |-> FALSE] : q \in
            {q \in Ids(H) \X Ids(H) : q[1] # q[2] /\ DistinctLegs(H, q, LAMBDA p : InternalCut(H, q, p)) /\ ~SelfBonded(H, q[1]) /\ ~SelfBonded(H, q[2])}}
    \cup {[op |-> "contract", a |-> q[1], b |-> q[2], r |-> r, all |-> FALSE, bonds |-> <<q[3]>>, matmul |-> FALSE] : q \in
            {q \in UNION {{<<a, b, l>> : l \in Rng(SharedLabels(H, a, b))} : a \in Ids(H), b \in Ids(H)} :
                q[1] # q[2] /\ Distinct(H[q[1]].L \o H[q[2]].L)}}
    \cup {[op |-> "contractlist", as |-> s, r |-> r, mode |-> "default", seq |-> <<>>, inplace |-> i] : s \in
            {s \in {AllSeq(H)} : Len(s) > 1 /\ Distinct(FlatSeq([j \in 1..Len(s) |-> H[s[j]].L])) /\ NoSelf(H, s)}, i \in BOOLEAN}
    \cup {[op |-> "merge", a |-> q[1], b |-> q[2], name |-> n] : q \in
            {q \in Ids(H) \X Ids(H) : q[1] # q[2] /\ SharedLabels(H, q[1], q[2]) # <<>>}, n \in {"", "m" \o r}}
    \cup {[op |-> "fuse", a |-> q[1], labels |-> q[2], new |-> "f" \o r, asleg |-> FALSE] : q \in
            UNION {{<<a, <<l, m>>>> : l \in FreeOf(H, a), m \in FreeOf(H, a)} : a \in Ids(H)}}
    \cup {[op |-> "sumout", a |-> q[1], labels |-> <<q[2]>>, w |-> <<>>, asleg |-> FALSE, bare |-> TRUE] : q \in
            UNION {{<<a, l>> : l \in Rng(H[a].L)} : a \in Ids(H)}}
    \cup {[op |-> "front", a |-> q[1], labels |-> <<q[2]>>, asleg |-> FALSE] : q \in
            UNION {{<<a, l>> : l \in Rng(H[a].L) \cup {"nosuch"}} : a \in Ids(H)}}
    \cup {[op |-> "tag", a |-> a, name |-> "t"] : a \in Ids(H)}
    \cup {[op |-> "copylist", as |-> s, rs |-> [i \in 1..Len(s) |-> r \o Digit(i)], like |-> FALSE, outg |-> o] :
            s \in {<<a>> : a \in Ids(H)} \cup {AllSeq(H)}, o \in BOOLEAN}

(***************************************************************************)
(* The law: everything contracted, all free legs summed.                   *)
(***************************************************************************)
Concrete(H) == \A a \in DOMAIN H : ~IsLike(H[a]) /\ ~SelfBonded(H, a)
\* size of the index space the sum runs over (bonds once)
Space(H) == LET as == AllSeq(H)
                own(i) == FoldLeft(LAMBDA acc, j : IF H[as[i]].P[j] # Free /\ PosIn(as, H[as[i]].P[j][1]) < i
                                                   THEN acc ELSE acc * H[as[i]].D[j], 1, Iota(Len(H[as[i]].L)))
            IN FoldLeft(LAMBDA acc, i : acc * own(i), 1, Iota(Len(as)))
Total(H) == LET as == AllSeq(H)
                terms == [i \in 1..Len(as) |-> [Val(H[as[i]]) EXCEPT
                            !.L = MapSeq(H[as[i]].L, LAMBDA l : LegName(H, as, i, l, LAMBDA p : TRUE))]]
                v == Einsum(TLCEval(terms), <<>>)
            IN IF Concrete(H) /\ Space(H) <= 300 THEN <<v.re[1], ImAt(v, 1)>> ELSE <<>>
Changing == {"link", "copylist"}
\* summing out a linked leg opens its bond, which is no contraction any more
Effect(H, e) == IF e.op = "contractlist" /\ ~e.inplace THEN "copylist"
                ELSE IF e.op = "sumout" /\ \E l \in Rng(e.labels) \cap Rng(H[e.a].L) : PAt(H[e.a], l) # Free THEN "link" ELSE e.op

\* one behaviour = the prologue and then DEPTH events
Init == /\ heap = Apply(<<>>, Prologue(Scenario))
        /\ hist = <<>>
        /\ cnt = 0
        /\ tot = Total(heap)
        /\ law = ""

Do(e) == LET H2 == TLCEval(IF Ok(heap, e) THEN CHOOSE Q \in Posts(heap, e) : TRUE ELSE heap)
             T2 == TLCEval(IF Export THEN <<>> ELSE Total(H2))
         IN /\ heap' = H2
            /\ tot' = T2
            /\ law' = IF tot = <<>> \/ T2 = <<>> \/ Effect(heap, e) \in Changing \/ tot = T2 THEN "" ELSE e.op
            /\ hist' = Append(hist, e)
            /\ cnt' = cnt + 1
            /\ IF Export /\ cnt' = Depth THEN PrintT("BEHAVIOUR " \o ToJson(Prologue(Scenario) \o hist')) ELSE TRUE

Next == cnt < Depth /\ \E e \in Events(heap, "r" \o ToString(cnt)) : Do(e)

Spec == Init /\ [][Next]_vars

Conserved == law = ""
HeapConsistent == Consistent(heap)
=============================================================================

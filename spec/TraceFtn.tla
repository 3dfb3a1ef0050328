------------------------------ MODULE TraceFtn ------------------------------
(***************************************************************************)
(* Validates recorded histories of networks and tensors: events of CtlNet  *)
(* on the tensors, edits and contractions of networks, and the template    *)
(* functions.                                                              *)
(***************************************************************************)
EXTENDS Templates, Observed, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, pos, heap, nets
vars == <<tr, pos, heap, nets>>

IsFtn(e) == Len(e.op) > 4 /\ SubSeq(e.op, 1, 4) = "ftn_"
IsTmpl(e) == Len(e.op) > 5 /\ SubSeq(e.op, 1, 5) = "tmpl_"

Inputs(H, e) == [a \in {e.map[i][1] : i \in 1..Len(e.map)} |->
                    H[e.map[CHOOSE i \in 1..Len(e.map) : e.map[i][1] = a][2]]]

\* networks as reported: tensor names (as a bag), count, lock
SameBag(s, u) == /\ Len(s) = Len(u)
                 /\ \A x \in Rng(s) \cup Rng(u) : Cardinality({i \in 1..Len(s) : s[i] = x}) = Cardinality({i \in 1..Len(u) : u[i] = x})
NetsDiff(N, e) ==
    IF DOMAIN N # {e.nets[i].id : i \in 1..Len(e.nets)} THEN "networks"
    ELSE IF \E i \in 1..Len(e.nets) : LET o == e.nets[i] IN ~SameBag(N[o.id].names, o.names) \/ o.count # Len(N[o.id].names)
         THEN "tensor names of a network"
    ELSE IF \E i \in 1..Len(e.nets) : LET o == e.nets[i] IN o.locked # N[o.id].locked THEN "lock of a network"
    ELSE ""

PutNet(N, i, n) == [x \in DOMAIN N \cup {i} |-> IF x = i THEN n ELSE N[x]]

\* triangles traced leg by leg, and a tensor traced with itself
TriTrace(H, e) ==
    LET W == [a |-> [H[e.a] EXCEPT !.P = NoFree(Len(@))], b |-> [H[e.b] EXCEPT !.P = NoFree(Len(@))]]
        X == TLCEval(Links(W, "a", <<"1", "2", "3">>, "b", <<"1", "2", "3">>))
        v == ContractValue(X, <<"a", "b">>, LAMBDA p : p[2] \in {"1", "2", "3"})
    IN Put(H, e.r, Mk(ResKind(H, <<e.a, e.b>>), v, NoFree(Len(v.L))))
SelfTrace(H, e) ==
    LET t == [H[e.a] EXCEPT !.P = NoFree(Len(@))]
        X == TLCEval(Links([a |-> t, b |-> t], "a", t.L, "b", t.L))
        v == ContractValue(X, <<"a", "b">>, LAMBDA p : TRUE)
    IN Put(H, e.r, Mk(ResKind(H, <<e.a>>), v, <<>>))

\* [ok, heap, nets] expected
Expect(H, N, e) ==
    CASE e.op = "ftn_new" -> [ok |-> TRUE, heap |-> H, nets |-> PutNet(N, e.n, EmptyNet(e.names))]
      [] e.op = "ftn_template" -> [ok |-> TRUE, heap |-> H, nets |-> PutNet(N, e.n, Template(e.t))]
      [] e.op = "ftn_contract" ->
            LET n == N[e.n]
                in == TLCEval(Inputs(H, e))
                ok == TLCEval(FtnOk(n, in))
            IN [ok |-> ok,
                heap |-> IF ok THEN Put(H, e.r, FtnValue(n, in, e.removetag)) ELSE H,
                nets |-> [N EXCEPT ![e.n].locked = TRUE]]
      [] e.op = "tmpl_tritrace" -> [ok |-> TRUE, heap |-> TriTrace(H, e), nets |-> N]
      [] e.op = "tmpl_selftrace" -> [ok |-> TRUE, heap |-> SelfTrace(H, e), nets |-> N]
      [] e.op = "tmpl_squaretrace" -> [ok |-> TRUE, heap |-> H, nets |-> N]
      [] e.op = "tmpl_dict" -> [ok |-> TRUE, heap |-> H, nets |-> N]
      [] OTHER -> LET ok == NetOk(N[e.n], e)
                  IN [ok |-> ok, heap |-> H, nets |-> IF ok THEN [N EXCEPT ![e.n] = NetPost(N[e.n], e)] ELSE N]

TmplRet(H, e) ==
    CASE e.op = "tmpl_squaretrace" -> e.ret = Trace(Val(H[e.a]), <<"u", "l">>, <<"d", "r">>)
      [] e.op = "tmpl_dict" -> LET want == IF e.t = "triangle" THEN [u |-> e.a, l |-> e.a, r |-> e.a]
                                           ELSE [ul |-> e.a, ur |-> e.b, dr |-> e.a, dl |-> e.b]
                               IN /\ Len(e.ret) = Cardinality(DOMAIN want)
                                  /\ \A i \in 1..Len(e.ret) : e.ret[i][1] \in DOMAIN want /\ want[e.ret[i][1]] = e.ret[i][2]
      [] OTHER -> TRUE

FtnVerdict(H, N, e) ==
    IF Sanity(e) # "" THEN Sanity(e)
    ELSE LET x == TLCEval(Expect(H, N, e))
             G == TLCEval(SnapHeap(e))
         IN IF ~Consistent(G) THEN "bonds or legs inconsistent"
            ELSE IF x.ok /\ e.out # "ok" THEN "valid request rejected: " \o e.exc
            ELSE IF ~x.ok /\ e.out = "ok" THEN "invalid request accepted"
            \* whether a rejected contraction leaves the network locked is not promised
            ELSE IF ~x.ok THEN LET d == HeapDiff(H, G)
                                   nd == IF e.op = "ftn_contract" THEN (IF NetsDiff(N, e) = "" THEN "" ELSE NetsDiff(x.nets, e))
                                         ELSE NetsDiff(N, e)
                               IN IF d # "" THEN "rejected request changed " \o d
                                  ELSE IF nd # "" THEN "rejected request changed " \o nd ELSE ""
            ELSE LET d == HeapDiff(x.heap, G)
                     nd == NetsDiff(x.nets, e)
                 IN IF d # "" THEN d ELSE IF nd # "" THEN nd ELSE IF TmplRet(H, e) THEN "" ELSE "returned value"

\* the networks after an accepted event, with the reported lock
NetsAfter(H, N, e) ==
    LET M == IF IsFtn(e) THEN (IF e.out = "ok" THEN Expect(H, N, e).nets ELSE N) ELSE N
    IN [x \in DOMAIN M |-> [M[x] EXCEPT !.locked = LET i == CHOOSE i \in 1..Len(e.nets) : e.nets[i].id = x IN e.nets[i].locked]]

StepVerdict(H, N, e) ==
    IF LibBad(<<>>, e) # "" THEN LibBad(<<>>, e)
    ELSE IF IsFtn(e) \/ IsTmpl(e) THEN FtnVerdict(H, N, e)
    ELSE LET v == Verdict(H, e) IN IF v # "" THEN v ELSE NetsDiff(N, e)

Init == /\ tr \in 1..Len(Traces)
        /\ pos = 0
        /\ heap = <<>>
        /\ nets = <<>>
Next == /\ pos >= 0 /\ pos < Len(Traces[tr])
        /\ LET e == Traces[tr][pos + 1]
               v == StepVerdict(heap, nets, e)
           IN IF v = ""
              THEN /\ heap' = SnapHeap(e)
                   /\ nets' = TLCEval(NetsAfter(heap, nets, e))
                   /\ pos' = pos + 1
                   /\ IF pos + 1 = Len(Traces[tr]) THEN PrintT(<<"TRACE-OK", tr>>) ELSE TRUE
              ELSE /\ PrintT(<<"TRACE-BAD", tr, pos + 1, e.op, v>>)
                   /\ pos' = -1 - pos
                   /\ UNCHANGED <<heap, nets>>
        /\ tr' = tr
Spec == Init /\ [][Next]_vars
=============================================================================

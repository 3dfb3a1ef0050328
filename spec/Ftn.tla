-------------------------------- MODULE Ftn --------------------------------
(***************************************************************************)
(* FiniteTensorNetwork: a reusable definition of a contraction.            *)
(*                                                                         *)
(* A network n is [names, pre, links, outs, post, locked]:                 *)
(*   names   the tensors it takes                                          *)
(*   pre     renamings <<tensor, leg, new>> applied to the inputs          *)
(*   links   <<tensorA, legA, tensorB, legB>>                              *)
(*   outs    out products [labels, new] of the contracted tensor           *)
(*   post    renamings <<tensor, leg, new>> of the result                  *)
(*                                                                         *)
(* The meaning of a contraction is given with the steps of CtlNet itself,  *)
(* taken on a private heap that holds copies of the inputs.                *)
(***************************************************************************)
EXTENDS CtlNet

EmptyNet(names) == [names |-> names, pre |-> <<>>, links |-> <<>>, outs |-> <<>>, post |-> <<>>, locked |-> FALSE]

\* remove the first occurrence
RemoveOne(s, x) == LET i == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
                   IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Tag(n, l) == n \o "-" \o l

Edits == {"ftn_addtensor", "ftn_rmtensor", "ftn_addlink", "ftn_addpre", "ftn_addpost", "ftn_rmpre", "ftn_rmpost", "ftn_addout"}

NetOk(n, e) ==
    CASE e.op \in {"ftn_lock", "ftn_unlock"} -> TRUE
      [] n.locked -> FALSE
      [] e.op = "ftn_rmtensor" -> e.name \in Rng(n.names)
      [] e.op = "ftn_rmpre" -> <<e.name, e.leg, e.to>> \in Rng(n.pre)
      [] e.op = "ftn_rmpost" -> <<e.name, e.leg, e.to>> \in Rng(n.post)
      [] OTHER -> TRUE
NetPost(n, e) ==
    CASE e.op = "ftn_lock" -> [n EXCEPT !.locked = TRUE]
      [] e.op = "ftn_unlock" -> [n EXCEPT !.locked = FALSE]
      [] e.op = "ftn_addtensor" -> [n EXCEPT !.names = Append(@, e.name)]
      [] e.op = "ftn_rmtensor" -> [n EXCEPT !.names = RemoveOne(@, e.name)]
      [] e.op = "ftn_addlink" -> [n EXCEPT !.links = Append(@, <<e.a, e.la, e.b, e.lb>>)]
      [] e.op = "ftn_addpre" -> [n EXCEPT !.pre = Append(@, <<e.name, e.leg, e.to>>)]
      [] e.op = "ftn_addpost" -> [n EXCEPT !.post = Append(@, <<e.name, e.leg, e.to>>)]
      [] e.op = "ftn_rmpre" -> [n EXCEPT !.pre = RemoveOne(@, <<e.name, e.leg, e.to>>)]
      [] e.op = "ftn_rmpost" -> [n EXCEPT !.post = RemoveOne(@, <<e.name, e.leg, e.to>>)]
      [] e.op = "ftn_addout" -> [n EXCEPT !.outs = Append(@, [labels |-> e.labels, new |-> e.new])]

(***************************************************************************)
(* Contraction: in(name) is the input tensor record of a name.             *)
(***************************************************************************)
PreLegs(n, name, L) == MapSeq(L, LAMBDA l : FoldLeft(LAMBDA x, c : IF c[1] = name /\ c[2] = x THEN c[3] ELSE x, l, n.pre))

\* private heap: renamed and tagged copies without bonds
Loaded(n, in) == [a \in Rng(n.names) |->
                    LET t == in[a]
                    IN [t EXCEPT !.L = MapSeq(PreLegs(n, a, t.L), LAMBDA l : Tag(a, l)), !.P = NoFree(Len(t.P))]]
LinkOk(W, k) == LET a == k[1]  b == k[3]
                IN /\ a \in DOMAIN W /\ b \in DOMAIN W /\ a # b
                   /\ Has(W[a], Tag(a, k[2])) /\ Has(W[b], Tag(b, k[4]))
                   /\ DAt(W[a], Tag(a, k[2])) = DAt(W[b], Tag(b, k[4]))
Linked(n, W) == FoldLeft(LAMBDA X, k : Links(X, k[1], <<Tag(k[1], k[2])>>, k[3], <<Tag(k[3], k[4])>>), W, n.links)

\* the contracted tensor, before tags are removed
Raw(n, in) ==
    LET W == TLCEval(Linked(n, TLCEval(Loaded(n, in))))
        v == TLCEval(ContractValue(W, n.names, LAMBDA p : InternalCut(W, n.names, p)))
        t == Mk(ResKind(W, n.names), v, NoFree(Len(v.L)))
        f == FoldLeft(LAMBDA x, o : TLCEval(FusedT(x, o.labels, "res-" \o o.new, Free)), t, n.outs)
    IN [f EXCEPT !.L = MapSeq(f.L, LAMBDA l : FoldLeft(LAMBDA x, c : IF x = Tag(c[1], c[2]) THEN Tag(c[1], c[3]) ELSE x, l, n.post))]
FtnValue(n, in, removeTag) == LET t == Raw(n, in)
                              IN IF removeTag THEN [t EXCEPT !.L = MapSeq(t.L, AfterDash)] ELSE t

\* out products must name legs of what is then there
RECURSIVE OutsOk(_, _)
OutsOk(L, outs) == IF outs = <<>> THEN TRUE
                   ELSE /\ Head(outs).labels # <<>>
                        /\ Distinct(Head(outs).labels) /\ Rng(Head(outs).labels) \subseteq L
                        /\ OutsOk((L \ Rng(Head(outs).labels)) \cup {"res-" \o Head(outs).new}, Tail(outs))

\* in is defined on the names given by the caller
FtnOk(n, in) ==
    /\ Distinct(n.names) /\ DOMAIN in = Rng(n.names)
    /\ \A c \in Rng(n.pre) : c[1] \in Rng(n.names)
    /\ \A a, b \in DOMAIN in : IsLike(in[a]) = IsLike(in[b])
    /\ \A a \in DOMAIN in : \A i \in 1..Len(in[a].L) : ~HasDash(PreLegs(n, a, in[a].L)[i])
    /\ LET W == TLCEval(Loaded(n, in))
       IN /\ \A k \in Rng(n.links) : LinkOk(W, k)
          /\ LET X == TLCEval(Linked(n, W))
             IN OutsOk(UNION {FreeLegs(X[a]) : a \in DOMAIN X}, n.outs)
=============================================================================

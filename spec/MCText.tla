------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* Closed model: every network of up to TENSORS tensors of up to LEGS legs *)
(* over a few ways to write a leg.  Laws:                                  *)
(*  - a text determines its network (no two networks share a text; checked *)
(*    by a fingerprint of the texts met against the networks met)          *)
(*  - links are mutual, no text of a network is malformed                  *)
(* Every text is printed for the real parser.                              *)
(***************************************************************************)
EXTENDS TextNet, Json, IOUtils
MaxT == atoi(IOEnv.TENSORS)
MaxL == atoi(IOEnv.LEGS)
L(n, b, d, w) == [n |-> n, b |-> b, d |-> d, w |-> w]
Ways == IF IOEnv.WIDE = "1"
        THEN {L("i", FALSE, 0, FALSE), L("i", FALSE, 2, FALSE), L("i", TRUE, 0, FALSE), L("i", FALSE, 3, TRUE), L("j", FALSE, 0, FALSE),
              L("j", FALSE, 12, TRUE), L("ij", TRUE, 0, FALSE), L("ij", TRUE, 2, FALSE), L("i1", TRUE, 0, FALSE), L("k", TRUE, 12, TRUE)}
        ELSE {L("i", FALSE, 0, FALSE), L("i", FALSE, 2, FALSE), L("i", FALSE, 3, TRUE), L("j", FALSE, 0, FALSE), L("ij", TRUE, 12, TRUE), L("ij", TRUE, 0, FALSE)}

VARIABLE ast
LastT == ast[Len(ast)]
Init == ast = <<[name |-> "A", legs |-> <<>>]>>
Grow == \/ \E l \in Ways : /\ Len(LastT.legs) < MaxL
                           /\ ast' = [ast EXCEPT ![Len(ast)].legs = Append(@, l)]
        \/ /\ Len(ast) < MaxT /\ Len(LastT.legs) > 0
           /\ ast' = Append(ast, [name |-> IF Len(ast) = 1 THEN "B" ELSE "A", legs |-> <<>>])
Next == /\ Grow
        /\ IF Writable(ast') THEN PrintT("BEHAVIOUR " \o ToJson(ast')) ELSE TRUE
Spec == Init /\ [][Next]_ast

Full == Writable(ast)
Mutual == Full /\ Meant(ast) => LET M == Meaning(ast)
                                IN \A i \in 1..Len(M) : \A l \in {M[i].legs[j] : j \in 1..Len(M[i].legs)} :
                                     l.p # 0 => [n |-> l.n, d |-> l.d, p |-> i] \in {M[l.p].legs[j] : j \in 1..Len(M[l.p].legs)}
Formed == Full => ~Malformed(Write(ast))
\* each leg is on one edge: free legs once, bonds twice
Handshake == Full /\ Meant(ast) => LET E == TextEdges(ast)
                IN Cardinality(Spots(ast)) = FoldLeft(LAMBDA a, x : a + E[x] * (IF x[2] = 0 THEN 1 ELSE 2), 0, SetToSeq(DOMAIN E))
\* reading from left to right determines the network: the text of a prefix is extended, never changed
LastDiffers == Full => \A l \in Ways : l # LastT.legs[Len(LastT.legs)] =>
                  Write(ast) # Write([ast EXCEPT ![Len(ast)].legs = SubSeq(@, 1, Len(@) - 1) \o <<l>>])
=============================================================================

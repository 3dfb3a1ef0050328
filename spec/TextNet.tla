------------------------------- MODULE TextNet -------------------------------
(***************************************************************************)
(* Network texts.  A network is a sequence of tensors                      *)
(*   [name (a capital letter), legs: sequence of [n, b, d, w]]             *)
(* n: leg name, b: written in braces, d: dimension (0: omitted), w: the    *)
(* dimension is written in braces.  Write is the text of a network,        *)
(* Meaning what the text stands for, Malformed the texts of no network.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)
LegText(l) == (IF l.b THEN "{" \o l.n \o "}" ELSE l.n)
              \o (IF l.d = 0 THEN "" ELSE IF l.w THEN "{" \o ToString(l.d) \o "}" ELSE ToString(l.d))
TensorText(t) == t.name \o Concat([j \in 1..Len(t.legs) |-> LegText(t.legs[j])])
Write(ast) == Concat([i \in 1..Len(ast) |-> TensorText(ast[i])])

\* a leg that can be written: a name out of braces is one letter, a size out of braces one digit
Writable(ast) == /\ Len(ast) > 0
                 /\ \A i \in 1..Len(ast) : /\ Len(ast[i].legs) > 0
                                           /\ \A j \in 1..Len(ast[i].legs) : LET l == ast[i].legs[j]
                                                IN (l.b \/ Len(l.n) = 1) /\ l.d >= 0 /\ (l.w \/ l.d < 10)

Spots(ast) == {<<i, j>> \in (1..Len(ast)) \X (1..20) : j <= Len(ast[i].legs)}
Leg(ast, p) == ast[p[1]].legs[p[2]]
Of(ast, n) == {p \in Spots(ast) : Leg(ast, p).n = n}
NamesOf(ast) == {Leg(ast, p).n : p \in Spots(ast)}
SizesOf(ast, n) == {Leg(ast, p).d : p \in Of(ast, n)} \ {0}

Meant(ast) == \A n \in NamesOf(ast) : Cardinality(Of(ast, n)) <= 2 /\ Cardinality(SizesOf(ast, n)) <= 1

Size(ast, n) == LET S == SizesOf(ast, n) IN IF S = {} THEN 0 ELSE CHOOSE d \in S : TRUE
\* tensors in order: name and legs [n, d, partner] (partner 0: free; a name twice in one tensor: its own partner)
Meaning(ast) == [i \in 1..Len(ast) |->
                   [name |-> ast[i].name,
                    legs |-> [j \in 1..Len(ast[i].legs) |->
                               [n |-> ast[i].legs[j].n, d |-> Size(ast, ast[i].legs[j].n),
                                p |-> LET O == Of(ast, ast[i].legs[j].n) \ {<<i, j>>}
                                      IN IF O = {} THEN 0 ELSE (CHOOSE q \in O : TRUE)[1]]]]]

\* the graph of the text: nodes and the bag of edges, as counts of <<u, v, weight>>, v = 0 for a free leg
EdgeOf(ast, p) == LET l == Leg(ast, p)
                      O == Of(ast, l.n) \ {p}
                      o == IF O = {} THEN 0 ELSE (CHOOSE q \in O : TRUE)[1]
                  IN IF o = 0 THEN <<p[1], 0, Size(ast, l.n)>>
                     ELSE <<IF p[1] < o THEN p[1] ELSE o, IF p[1] < o THEN o ELSE p[1], Size(ast, l.n)>>
TextEdges(ast) == LET S == {p \in Spots(ast) : ~\E q \in Of(ast, Leg(ast, p).n) : q[1] < p[1] \/ (q[1] = p[1] /\ q[2] < p[2])}
                  IN [x \in {EdgeOf(ast, p) : p \in S} |-> Cardinality({p \in S : EdgeOf(ast, p) = x})]

\* texts of no network
Caps == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Smalls == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
At(t, i) == SubSeq(t, i, i)
Depth(t, i) == Cardinality({k \in 1..i : At(t, k) = "{"}) - Cardinality({k \in 1..i : At(t, k) = "}"})
Malformed(t) ==
    \/ Len(t) = 0
    \/ At(t, 1) \notin Caps
    \* a capital with no leg after it
    \/ \E i \in 1..Len(t) : At(t, i) \in Caps /\ (i = Len(t) \/ At(t, i + 1) \in Caps)
    \/ \E i \in 1..Len(t) : /\ At(t, i) \in Caps
                            /\ LET N == {k \in (i + 1)..Len(t) : At(t, k) \in Caps}
                                   e == IF N = {} THEN Len(t) ELSE (CHOOSE k \in N : \A m \in N : k <= m) - 1
                               IN \A k \in (i + 1)..e : At(t, k) \notin Smalls
    \* a brace closed that was not opened
    \/ \E i \in 1..Len(t) : Depth(t, i) < 0
=============================================================================

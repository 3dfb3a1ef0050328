---------------------------- MODULE MCTemplates ----------------------------
(***************************************************************************)
(* Laws of the motifs, and their export to the harness.                    *)
(*  - every leg of a motif is used once: joined, fused or left open        *)
(*  - a block closed on itself is the torus of its sites                   *)
(***************************************************************************)
EXTENDS Templates, Json, IOUtils

VARIABLE t, done

Ends(n) == FlatSeq([i \in 1..Len(n.links) |-> << <<n.links[i][1], n.links[i][2]>>, <<n.links[i][3], n.links[i][4]>> >>])
WellDrawn == LET n == Template(t)
                 lg == LegsOf(t)
                 ends == Ends(n)
             IN /\ DOMAIN lg = Rng(n.names) /\ Distinct(n.names)
                /\ Distinct(ends)
                /\ \A i \in 1..Len(ends) : ends[i][1] \in Rng(n.names) /\ ends[i][2] \in Rng(lg[ends[i][1]])
                /\ \A i \in 1..Len(n.links) : n.links[i][1] # n.links[i][3]

Site(L, s) == [k |-> "dense", L |-> L, D |-> [i \in 1..Len(L) |-> 2], P |-> NoFree(Len(L)),
               re |-> [i \in 1..(2 ^ Len(L)) |-> ((i * i * 3 + i * s + s) % 7) - 3], im |-> <<>>]
Ins == LET n == Template(t) IN [a \in Rng(n.names) |-> Site(LegsOf(t)[a], IndexOf(n.names, a))]

\* torus of 2 x 2 sites, in coordinates: r of (x, y) meets l of (x + 1, y), d meets u of (x, y + 1)
Hor(x, y) == "h" \o ToString(x) \o ToString(y)
Ver(x, y) == "v" \o ToString(x) \o ToString(y)
At(name) == CASE name = "ul" -> <<0, 0>> [] name = "ur" -> <<1, 0>> [] name = "dl" -> <<0, 1>> [] name = "dr" -> <<1, 1>>
TorusTerm(name) == LET c == At(name)  s == Ins[name]
                   IN [Val(s) EXCEPT !.L = MapSeq(s.L, LAMBDA l :
                        CASE l = "r" -> Hor(c[1], c[2]) [] l = "l" -> Hor(1 - c[1], c[2])
                          [] l = "d" -> Ver(c[1], c[2]) [] l = "u" -> Ver(c[1], 1 - c[2]))]
TorusLaw == t = "square" =>
    LET v == FtnValue(Template(t), Ins, TRUE)
        z == EinsumSeq([i \in 1..4 |-> TorusTerm(Block[i])], <<>>)
    IN Trace(Val(v), <<"u", "l">>, <<"d", "r">>) = <<z.re[1], 0>>
\* rotating the triangle leaves it a triangle
TriangleLaw == t = "triangle" =>
    LET v == FtnValue(Template(t), Ins, TRUE)
        rot == [u |-> Ins["r"], l |-> Ins["u"], r |-> Ins["l"]]
        w == FtnValue(Template(t), rot, TRUE)
    IN SameValue(Val(w), Relabel(Val(v), LAMBDA l : CASE l = "1" -> "2" [] l = "2" -> "3" [] l = "3" -> "1"))
Valid == FtnOk(Template(t), Ins)

Init == t \in All /\ done = FALSE
Next == /\ ~done /\ PrintT("BEHAVIOUR " \o ToJson([t |-> t, net |-> Template(t), legs |-> LegsOf(t)]))
        /\ t' = t /\ done' = TRUE
Spec == Init /\ [][Next]_<<t, done>>
=============================================================================

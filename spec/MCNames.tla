------------------------------ MODULE MCNames ------------------------------
(***************************************************************************)
(* Closed model: two sets, one of them over the names a, b, c only (the    *)
(* moment when few names are left), every history to the given depth.      *)
(* The histories, with fresh names left symbolic, are replayed.            *)
(***************************************************************************)
EXTENDS NameSet, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Alpha == {"a", "b", "c"}
Given == {"a", "b"}
Ids == {"1", "2"}

VARIABLES sets, hist, freshOk
vars == <<sets, hist, freshOk>>

Ev(op, id, arg, res) == [op |-> op, id |-> id, arg |-> arg, n |-> 1, known |-> <<>>, res |-> res, yes |-> FALSE, out |-> "ok"]
Init == sets = [x \in Ids |-> [n |-> 1, names |-> {}]] /\ hist = <<>> /\ freshOk = TRUE
Do(e) == /\ sets' = IF Accepts(sets, e) THEN After(sets, e) ELSE sets
         /\ hist' = Append(hist, [op |-> e.op, id |-> e.id, arg |-> e.arg])
         /\ IF Len(hist') = Depth THEN PrintT("BEHAVIOUR " \o ToJson(hist')) ELSE TRUE
Next == /\ Len(hist) < Depth
        /\ \E id \in Ids :
             \/ \E op \in {"given", "add", "remove", "contains"}, s \in Given : Do(Ev(op, id, s, s)) /\ UNCHANGED freshOk
             \/ \E s \in Alpha \ sets[id].names : /\ Do(Ev("fresh", id, "", s))
                                                  /\ freshOk' = (Answer(sets, Ev("fresh", id, "", s)) = "")
Spec == Init /\ [][Next]_vars
\* a set changes by at most one name, and never together with another set
OneAtATime == [][ Cardinality({x \in Ids : sets'[x] # sets[x]}) <= 1
                  /\ \A x \in Ids : Cardinality((sets'[x].names \ sets[x].names) \cup (sets[x].names \ sets'[x].names)) <= 1 ]_vars
\* at exhaustion nothing fresh is promised; before, there is a choice
Room == \A x \in Ids : (sets[x].names # Alpha) => \E s \in Alpha : Answer(sets, Ev("fresh", x, "", s)) = ""
Fresh == freshOk
Lengths == \A x \in Ids : sets[x].n = 1
=============================================================================

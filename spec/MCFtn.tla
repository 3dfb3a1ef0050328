------------------------------- MODULE MCFtn -------------------------------
(***************************************************************************)
(* One network as a closed model: every sequence of edits, locks and       *)
(* contractions (with inputs of two different sizes) to DEPTH steps.       *)
(* Checked: a contraction of an unedited network gives the same tensor     *)
(* every time (Pure), and a locked network never changes (Frozen).         *)
(* Behaviours are printed for replay on the real class.                    *)
(***************************************************************************)
EXTENDS Ftn, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
Scenario == atoi(IOEnv.SCENARIO)

VARIABLES net, hist, cnt, last, frozen
vars == <<net, hist, cnt, last, frozen>>

Fill(n, s) == [i \in 1..n |-> ((i * i * 3 + i * s + s) % 7) - 3]
NewEv(r, L, D, s) == [op |-> "new", r |-> r, kind |-> "dense", L |-> L, D |-> D, re |-> Fill(Prod(D), s), im |-> <<>>, via |-> "labels"]
\* inputs of size 2 and 3; B of scenario 2 is a scalar
Tens == CASE Scenario = 1 -> << NewEv("1", <<"l", "r">>, <<2, 2>>, 1), NewEv("2", <<"l", "r">>, <<2, 2>>, 2), NewEv("3", <<"l", "r">>, <<3, 2>>, 3), NewEv("4", <<"l", "r">>, <<2, 3>>, 4) >>
          [] Scenario = 2 -> << NewEv("1", <<"l", "r">>, <<2, 3>>, 1), NewEv("2", <<>>, <<>>, 2), NewEv("3", <<"l", "r">>, <<3, 2>>, 3), NewEv("4", <<>>, <<>>, 4) >>
          [] Scenario = 3 -> << NewEv("1", <<"l", "r", "o">>, <<2, 2, 2>>, 1), NewEv("2", <<"l", "r">>, <<2, 2>>, 2), NewEv("3", <<"l", "r", "o">>, <<2, 1, 3>>, 3), NewEv("4", <<"l", "r">>, <<1, 2>>, 4) >>
Heap == FoldLeft(LAMBDA H, e : Post(H, e), <<>>, Tens)
NewNet == [op |-> "ftn_new", n |-> "n", names |-> <<"A", "B">>]

E(op) == [op |-> op, n |-> "n"]
Nm(op, name, leg, to) == [op |-> op, n |-> "n", name |-> name, leg |-> leg, to |-> to]
Edit == {E("ftn_lock"), E("ftn_unlock")}
   \cup {[op |-> "ftn_addlink", n |-> "n", a |-> "A", la |-> l, b |-> "B", lb |-> "l"] : l \in {"r", "l", "x"}}
   \cup {Nm("ftn_addpre", "A", "l", "x"), Nm("ftn_rmpre", "A", "l", "x")}
   \cup {Nm("ftn_addpost", "B", "r", "y"), Nm("ftn_rmpost", "B", "r", "y"), Nm("ftn_addpost", "A", "l", "z")}
   \cup {[op |-> "ftn_addout", n |-> "n", labels |-> <<"A-l", "B-r">>, new |-> "m"]}
   \cup {[op |-> "ftn_addtensor", n |-> "n", name |-> "C"], [op |-> "ftn_rmtensor", n |-> "n", name |-> "C"], [op |-> "ftn_rmtensor", n |-> "n", name |-> "B"]}
Maps == { << <<"A", "1">>, <<"B", "2">> >>, << <<"A", "3">>, <<"B", "4">> >>, << <<"B", "2">>, <<"C", "1">>, <<"A", "1">> >>, << <<"A", "1">> >> }
Ctr(m, r) == [op |-> "ftn_contract", n |-> "n", map |-> m, removetag |-> FALSE, r |-> r, asdict |-> TRUE, bytd |-> FALSE]
InOf(m) == [a \in {m[i][1] : i \in 1..Len(m)} |-> Heap[m[CHOOSE i \in 1..Len(m) : m[i][1] = a][2]]]

\* contractions are only asked for where the legs joined are joined once
OnceLinked(n) == \A i, j \in 1..Len(n.links) : i # j => {<<n.links[i][1], n.links[i][2]>>, <<n.links[i][3], n.links[i][4]>>} \cap
                                                        {<<n.links[j][1], n.links[j][2]>>, <<n.links[j][3], n.links[j][4]>>} = {}
Askable(n, m) == OnceLinked(n) /\ (FtnOk(n, InOf(m)) => Distinct(Raw(n, InOf(m)).L))
M1 == << <<"A", "1">>, <<"B", "2">> >>
M2 == << <<"A", "3">>, <<"B", "4">> >>
Init == net = EmptyNet(<<"A", "B">>) /\ hist = <<>> /\ cnt = 0 /\ last = <<>> /\ frozen = net
EditStep == \E e \in Edit :
               /\ LET ok == NetOk(net, e)
                  IN /\ net' = IF ok THEN NetPost(net, e) ELSE net
                     /\ hist' = Append(hist, e)
                     /\ last' = IF ok /\ e.op \in Edits THEN <<>> ELSE last
                     /\ frozen' = net'
ContractStep == /\ \E m \in Maps :
                     /\ Askable(net, m)
                     /\ hist' = Append(hist, Ctr(m, "r" \o ToString(cnt)))
                     /\ net' = [net EXCEPT !.locked = TRUE]
                     /\ last' = IF FtnOk(net, InOf(m)) THEN <<m, FtnValue(net, InOf(m), FALSE)>> ELSE last
                     /\ frozen' = net'
Next == /\ cnt < Depth
        /\ EditStep \/ ContractStep
        /\ cnt' = cnt + 1
        /\ IF cnt' = Depth THEN PrintT("BEHAVIOUR " \o ToJson(Tens \o <<NewNet>> \o hist'
                                 \o (IF Askable(net', M1) THEN <<Ctr(M1, "q1")>> ELSE <<>>)
                                 \o (IF Askable(net', M2) THEN <<Ctr(M2, "q2")>> ELSE <<>>) \o <<E("ftn_unlock")>>)) ELSE TRUE
Spec == Init /\ [][Next]_vars

Pure == last # <<>> => FtnValue(net, InOf(last[1]), FALSE) = last[2]
Frozen == net = frozen
=============================================================================

------------------------------ MODULE Observed ------------------------------
(***************************************************************************)
(* From recorded snapshots of the real library to heaps of CtlNet, and the *)
(* verdict on one recorded event.                                          *)
(***************************************************************************)
EXTENDS CtlNet, Backend

\* snapshot -> heap
SnapT(s) == IF s.k = "diag" THEN Mk("diag", DiagExpand(s.L, s.D, s.re, s.im), s.P)
            ELSE Mk(s.k, IF s.k \in {"like", "dlike"} THEN [L |-> s.L, D |-> s.D, re |-> <<>>, im |-> <<>>]
                         ELSE Canon([L |-> s.L, D |-> s.D, re |-> s.re, im |-> s.im]), s.P)
SnapHeap(e) == [a \in {e.snap[i].id : i \in 1..Len(e.snap)} |->
                   SnapT(e.snap[CHOOSE i \in 1..Len(e.snap) : e.snap[i].id = a])]
\* data, shape and owners as the library reports them, next to the legs
SnapSane(s) == /\ s.S = s.D
               /\ s.k \in {"dense"} => s.A = s.D
               /\ s.k = "diag" => IF s.D = <<>> THEN s.A = <<>> ELSE s.A = <<s.D[1]>> /\ \A i \in 1..Len(s.D) : s.D[i] = s.D[1]
               /\ \A i \in 1..Len(s.O) : s.O[i] = s.id
               /\ s.T = s.U \* element type reported and held

\* what any event must satisfy, whatever it is
Sanity(e) == IF e.out = "timeout" THEN "no answer"
             ELSE IF e.broken # "" THEN "unreadable state: " \o e.broken
             ELSE IF \E i \in 1..Len(e.snap) : ~SnapSane(e.snap[i]) THEN "legs, shape, data and owner disagree"
             ELSE ""

\* names and degrees of freedom: carried by copies, set at creation, changed by nothing else;
\* from is the snapshot before the event
MetaAt(snap, i) == LET s == snap[CHOOSE j \in 1..Len(snap) : snap[j].id = i] IN <<s.N, s.F>>
MetaBad(from, e) ==
    LET ids(s) == {s[i].id : i \in 1..Len(s)}
        source(r) == CASE e.out # "ok" -> r
                       [] e.op \in {"copy", "tolike"} /\ r = e.r -> e.a
                       [] e.op = "copylist" /\ r \in Rng(e.rs) -> e.as[IndexOf(e.rs, r)]
                       [] OTHER -> r
    IN IF \E r \in ids(e.snap) : source(r) \in ids(from) /\ MetaAt(e.snap, r) # MetaAt(from, source(r)) THEN "name or degree of freedom"
       ELSE IF e.op = "new" /\ e.out = "ok" /\ MetaAt(e.snap, e.r) # <<e.nm, e.dof>> THEN "name or degree of freedom of a new tensor"
       ELSE ""

\* the array library in use holds every array there is, except those that were there before and were not touched
LibrariesOf(snap) == [t \in {snap[i].id : i \in 1..Len(snap)} |-> snap[CHOOSE i \in 1..Len(snap) : snap[i].id = t].B]
LibBad(from, e) == IF InUse(LibrariesOf(from), LibrariesOf(e.snap), e.xp) THEN "" ELSE "array of a library that is not in use"

Verdict(H, e) ==
    IF Sanity(e) # "" THEN Sanity(e)
    ELSE LET G == TLCEval(SnapHeap(e))
             ok == Ok(H, e)
         IN IF ~Consistent(G) THEN "bonds or legs inconsistent"
            ELSE IF ok /\ e.out # "ok" THEN "valid request rejected: " \o e.exc
            ELSE IF ~ok /\ e.out = "ok" THEN "invalid request accepted"
            ELSE IF ~ok THEN LET d == HeapDiff(H, G) IN IF d = "" THEN "" ELSE "rejected request changed " \o d
            ELSE LET Ps == Posts(H, e)
                 IN IF \E Q \in Ps : HeapDiff(Q, G) = ""
                    THEN IF RetOk(H, G, e) THEN "" ELSE "returned value"
                    ELSE HeapDiff(CHOOSE Q \in Ps : TRUE, G)
=============================================================================

----------------------------- MODULE MCBackend -----------------------------
(***************************************************************************)
(* Closed model: up to three tensors, every history of making, combining   *)
(* and changing tensors and of replacing the library, to the given depth.  *)
(* Tensors made under one library are given up when it is replaced.  The   *)
(* histories are performed on random tensors of the real library.          *)
(***************************************************************************)
EXTENDS Backend, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)

VARIABLES use, of, made, hist
vars == <<use, of, made, hist>>

Put(f, t, l) == [x \in DOMAIN f \cup {t} |-> IF x = t THEN l ELSE f[x]]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

Init == use = "numpy" /\ of = <<>> /\ made = 0 /\ hist = <<>>
Did(s) == /\ hist' = Append(hist, s)
          /\ IF Len(hist') = Depth THEN PrintT("BEHAVIOUR " \o ToJson(hist')) ELSE TRUE

Switch == \E l \in Libraries \ {use} : use' = l /\ of' = <<>> /\ made' = made /\ Did(l)
Make == /\ Cardinality(DOMAIN of) < 3
        /\ \E s \in {"dense", "diag", "copy"} :
             /\ s = "copy" => DOMAIN of # {}
             /\ of' = Put(of, made + 1, use) /\ Did(s)
        /\ made' = made + 1 /\ use' = use
Contract == /\ Cardinality(DOMAIN of) >= 2
            /\ \E a, b \in DOMAIN of : a < b /\ of' = Put(Without(of, {a, b}), made + 1, use)
            /\ made' = made + 1 /\ use' = use /\ Did("contract")
Change == \E t \in DOMAIN of, s \in {"sumout", "fuse", "poke"} : of' = Put(of, t, use) /\ UNCHANGED <<use, made>> /\ Did(s)
Ask == \E s \in {"totensor", "norm"} : DOMAIN of # {} /\ UNCHANGED <<use, of, made>> /\ Did(s)

Next == Len(hist) < Depth /\ (Switch \/ Make \/ Contract \/ Change \/ Ask)
Spec == Init /\ [][Next]_vars

Together == \A t \in DOMAIN of : of[t] = use
Steps == [][InUse(of, of', use')]_vars
=============================================================================

------------------------------- MODULE NameSet -------------------------------
(***************************************************************************)
(* Name sets (StringSet, and the module-wide sets behind tensor and bond   *)
(* names).  The state maps every live set to the length of the names it    *)
(* generates and the names in use.  A fresh name is any unused name of     *)
(* that length: which one is left open.                                    *)
(*                                                                         *)
(* Events e: op, id, arg (given name), n (length for "make"), known (names *)
(* to avoid), res (returned name), yes (returned truth value), out         *)
(* ("ok" | "rejected" | "hung").                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RngN(s) == {s[i] : i \in 1..Len(s)}

\* does the specification accept the request
Accepts(S, e) ==
    CASE e.op \in {"make", "fresh", "contains", "avoid", "random"} -> TRUE
      [] e.op = "given" -> e.arg \notin S[e.id].names
      [] e.op = "add" -> e.arg \notin S[e.id].names
      \* several names added one after the other
      [] e.op = "fill" -> RngN(e.known) \cap S[e.id].names = {} /\ Cardinality(RngN(e.known)) = Len(e.known)
      [] e.op = "remove" -> e.arg \in S[e.id].names
      [] OTHER -> FALSE

\* is the answer one the specification allows
Answer(S, e) ==
    CASE e.op = "fresh" -> IF e.res \in S[e.id].names THEN "name in use handed out"
                           ELSE IF Len(e.res) # S[e.id].n THEN "generated name of the wrong length" ELSE ""
      [] e.op = "given" -> IF e.res # e.arg THEN "a different name returned" ELSE ""
      [] e.op = "contains" -> IF e.yes # (e.arg \in S[e.id].names) THEN "wrong membership" ELSE ""
      [] e.op = "avoid" -> IF e.res \in RngN(e.known) THEN "name in use handed out"
                           ELSE IF Len(e.res) # e.n THEN "generated name of the wrong length" ELSE ""
      [] e.op = "random" -> IF Len(e.res) # e.n THEN "generated name of the wrong length" ELSE ""
      [] OTHER -> ""

After(S, e) ==
    CASE e.op = "make" -> [x \in DOMAIN S \cup {e.id} |-> IF x = e.id THEN [n |-> e.n, names |-> {}] ELSE S[x]]
      [] e.op = "fresh" -> [S EXCEPT ![e.id].names = @ \cup {e.res}]
      [] e.op \in {"given", "add"} -> [S EXCEPT ![e.id].names = @ \cup {e.arg}]
      [] e.op = "fill" -> [S EXCEPT ![e.id].names = @ \cup RngN(e.known)]
      [] e.op = "remove" -> [S EXCEPT ![e.id].names = @ \ {e.arg}]
      [] OTHER -> S
=============================================================================

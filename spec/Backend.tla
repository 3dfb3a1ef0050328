------------------------------ MODULE Backend ------------------------------
(***************************************************************************)
(* The array library that calculations are done with.  A tensor holds an   *)
(* array of one library, or a plain number (""); the library in use can be *)
(* replaced at any time.  Whatever a step makes or changes belongs to the  *)
(* library in use; what it leaves alone stays where it was.                *)
(***************************************************************************)
EXTENDS Sequences, Integers, FiniteSets

Libraries == {"numpy", "other"}
Number == ""

\* of, next: functions from tensors to libraries before and after a step, with use in force at its end
InUse(of, next, use) == \A t \in DOMAIN next : \/ next[t] \in {Number, use}
                                               \/ t \in DOMAIN of /\ of[t] = next[t]
=============================================================================

--------------------------- MODULE TraceConstruct ---------------------------
(***************************************************************************)
(* Validates constructions recorded from the real classes.  A record: the  *)
(* arguments a, out ("ok" | "rejected" | "hung"), the built tensor t       *)
(* [k, like, L, D, re, im (all entries, row-major), cplx, name, dof],      *)
(* adopted (the given legs are its legs), owners (what the given legs say  *)
(* about their owner and bond: "new", "kept" or "mixed"), given and asked: *)
(* the element types of the data and of the dtype argument ("none" without *)
(* them; a type asked for only counts when there is no data), t.dt and     *)
(* t.float: the element type the tensor reports; wantcplx: complex entries *)
(* have been asked for.                                                    *)
(***************************************************************************)
EXTENDS Construct, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)

Floats == {"float16", "float32", "float64"}
ElementType(e) == IF e.given # "none" THEN e.given ELSE IF e.asked # "none" THEN e.asked ELSE "float64"

RecordBad(e) ==
    LET r == Deduce(e.a)
    IN IF e.out = "hung" THEN "no answer"
       ELSE IF ~Askable(e.a) THEN "harness: not askable"
       ELSE IF ~r.ok THEN (IF e.out = "ok" THEN "contradictory or insufficient arguments accepted"
                           ELSE IF e.owners # "kept" THEN "rejected construction took over the given legs" ELSE "")
       ELSE IF e.out # "ok" THEN "consistent arguments rejected"
       ELSE IF e.t.k # e.a.kind THEN "kind of tensor"
       ELSE IF e.t.like # e.a.like THEN "shape-only or not"
       ELSE IF ~IsPerm(e.t.L, r.L) THEN "labels"
       ELSE IF \E i \in 1..Len(r.L) : e.t.D[IndexOf(e.t.L, r.L[i])] # r.D[i] THEN "dimensions"
       ELSE IF e.t.name # e.name \/ e.t.dof # e.dof THEN "name or degree of freedom"
       ELSE IF e.t.dt # ElementType(e) THEN "element type reported"
       ELSE IF e.t.float # (ElementType(e) \in Floats) THEN "real or not reported"
       ELSE IF e.a.legs.g /\ ~(e.adopted /\ e.owners = "new") THEN "given legs not adopted"
       ELSE IF e.a.like THEN ""
       ELSE IF e.a.data.g THEN (IF SameValue([L |-> e.t.L, D |-> e.t.D, re |-> e.t.re, im |-> e.t.im], Value(e.a)) THEN "" ELSE "entries")
       ELSE IF Len(e.t.re) # Prod(r.D) THEN "number of entries"
       ELSE IF e.a.kind = "dense" /\ e.t.cplx # e.wantcplx THEN "element type" ELSE ""

VARIABLES tr, done
Init == tr \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET v == RecordBad(Traces[tr])
           IN IF v = "" THEN PrintT(<<"TRACE-OK", tr>>) ELSE PrintT(<<"TRACE-BAD", tr, 1, Traces[tr].a.kind, v>>)
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================

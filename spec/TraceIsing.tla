----------------------------- MODULE TraceIsing -----------------------------
(***************************************************************************)
(* Judges graphs, partition functions, lattices and local tensors recorded *)
(* from the real library.  A record of op "graph" has the bonds requested  *)
(* (wanted) and steps; each step adds bonds up to position upto and then   *)
(* observes the graph and the networks built from it.                      *)
(***************************************************************************)
EXTENDS Ising, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)

GraphAt(e, k) == [n |-> e.n, edges |-> SubSeq(e.wanted, 1, k)]
StepBad(e, s) ==
    LET g == GraphAt(e, s.upto)
    IN IF s.failed # "" THEN s.what \o " failed: " \o s.failed
       ELSE CASE s.what = "edges" -> IF SameBonds(s.edges, g.edges) THEN "" ELSE "bonds of the graph"
              [] s.what = "degree" -> IF s.deg = [v \in 1..e.n |-> Degree(g, v - 1)] THEN "" ELSE "degrees"
              [] s.what = "across" -> IF SameBonds(s.edges, g.edges) THEN "" ELSE "neighbours along the edges"
              [] s.what \in {"network", "exact"} -> IF s.z = Z(g) THEN "" ELSE "partition function (" \o s.what \o ")"
              [] s.what = "tensors" -> IF s.n = e.n /\ s.deg = [v \in 1..e.n |-> Links(g, v - 1)] THEN "" ELSE "tensors of the network"
              [] s.what = "weight" -> IF s.w = Weight(g, s.S) THEN "" ELSE "weight of a configuration"
RECURSIVE FirstBad(_, _)
FirstBad(e, k) == IF k > Len(e.steps) THEN "" ELSE LET v == StepBad(e, e.steps[k]) IN IF v # "" THEN v ELSE FirstBad(e, k + 1)

B(i, k) == Bit(i - 1, k)
RecordBad(e) ==
    CASE e.op = "graph" -> IF e.lattice # "" /\ ~LET g == Lattice([name |-> e.lattice, n |-> e.ln, m |-> e.lm, w1 |-> e.w1, w2 |-> e.w2])
                                               IN g.n = e.n /\ SameBonds(g.edges, e.wanted)
                           THEN "sites and bonds of the lattice" ELSE FirstBad(e, 1)
      [] e.failed # "" -> e.op \o " failed: " \o e.failed
      \* entries listed by the bits lu + 2 ru + 4 rd + 8 ld
      [] e.op = "plaquette" -> IF e.got = [i \in 1..16 |-> Plaquette(e.wv, e.wh, B(i, 0), B(i, 1), B(i, 2), B(i, 3))] THEN "" ELSE "plaquette weights"
      \* entries listed by the bits u + 2 l + 4 d + 8 r
      [] e.op = "square" -> IF e.got = [i \in 1..16 |-> SquareEntry(e.k, e.j, e.obs, B(i, 0), B(i, 1), B(i, 2), B(i, 3))] THEN "" ELSE "square weights"
      [] e.op = "site" -> IF e.got = [i \in 1..Pow2(Len(e.ws)) |-> SiteEntry(e.ws, [k \in 1..Len(e.ws) |-> B(i, k - 1)])] THEN "" ELSE "site weights"
      [] e.op = "edge" -> IF e.got = << BondWeight(e.w, 0, 0), BondWeight(e.w, 0, 1), BondWeight(e.w, 1, 0), BondWeight(e.w, 1, 1) >> THEN "" ELSE "edge weights"
      \* network of plaquettes in diamond form: the double square lattice
      [] e.op = "plaqnet" -> IF e.z = Z(DoubleFBC(e.n, e.m, e.w1, e.w2)) THEN "" ELSE "partition function of the plaquette network"
      [] e.op = "infinite" -> IF e.got = Magnet8(e.p, e.q) THEN "" ELSE "magnetization of the infinite lattice"
      [] e.op = "reject" -> IF e.accepted THEN "invalid request accepted" ELSE ""

VARIABLES tr, done
Init == tr \in 1..Len(Traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ tr' = tr
        /\ LET v == RecordBad(Traces[tr])
           IN IF v = "" THEN PrintT(<<"TRACE-OK", tr>>) ELSE PrintT(<<"TRACE-BAD", tr, 1, Traces[tr].op, v>>)
Spec == Init /\ [][Next]_<<tr, done>>
=============================================================================

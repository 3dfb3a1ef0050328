----------------------------- MODULE Construct -----------------------------
(***************************************************************************)
(* What a tensor is built from, and what it is then.  Arguments a:         *)
(*   kind ("dense" | "diag"), like                                         *)
(*   shape  [g (given), int, D]   int: a single number for all legs        *)
(*   labels [g, L]                                                         *)
(*   data   [g, D, re, im]                                                 *)
(*   legs   [g, L, D]                                                      *)
(* Priorities: labels: legs = labels, else a, b, c, ...; shape: legs =     *)
(* shape, else data; data: the given data laid out in that shape; a        *)
(* one-dimensional array of the right length is the diagonal itself.       *)
(***************************************************************************)
EXTENDS Ein

Letters == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
AllSame(D) == \A i \in 1..Len(D) : D[i] = D[1]
Rep(x, n) == [i \in 1..n |-> x]
None == [ok |-> FALSE, L |-> <<>>, D |-> <<>>]

\* data of shape E can be laid out in shape D
Fits(a, D) == ~a.data.g \/ Prod(a.data.D) = Prod(D)
              \/ (a.kind = "diag" /\ Len(D) > 0 /\ a.data.D = <<D[1]>>)

\* number of legs of a diagonal tensor given by labels and data alone (-1: not determined or contradictory)
Rank(a) == IF a.labels.g /\ a.data.g /\ Len(a.data.D) # 1 /\ Len(a.labels.L) # Len(a.data.D) THEN -1
           ELSE IF a.labels.g THEN Len(a.labels.L)
           ELSE IF a.data.g THEN Len(a.data.D) ELSE -1

\* the shape the arguments determine: [ok, D]
Shape(a) ==
    IF a.legs.g
    THEN [ok |-> \/ ~a.shape.g
                 \/ (a.shape.int /\ AllSame(a.legs.D) /\ (Len(a.legs.D) > 0 => a.legs.D[1] = a.shape.D[1]))
                 \/ (~a.shape.int /\ a.shape.D = a.legs.D), D |-> a.legs.D]
    ELSE IF a.shape.g /\ ~a.shape.int THEN [ok |-> TRUE, D |-> a.shape.D]
    ELSE IF a.shape.g THEN (IF Rank(a) < 0 THEN [ok |-> FALSE, D |-> <<>>] ELSE [ok |-> TRUE, D |-> Rep(a.shape.D[1], Rank(a))])
    ELSE IF a.data.g
         THEN (IF a.kind = "dense" THEN [ok |-> TRUE, D |-> a.data.D]
               ELSE IF Rank(a) < 0 THEN [ok |-> FALSE, D |-> <<>>]
               ELSE IF Len(a.data.D) = 1 THEN [ok |-> Rank(a) > 0, D |-> Rep(a.data.D[1], Rank(a))]
               ELSE [ok |-> TRUE, D |-> a.data.D])
    \* shape-only tensors may leave their dimensions open (0)
    ELSE IF a.kind = "dense" /\ a.like /\ a.labels.g THEN [ok |-> TRUE, D |-> Rep(0, Len(a.labels.L))]
    ELSE [ok |-> FALSE, D |-> <<>>]

Deduce(a) ==
    LET s == Shape(a)
    IN IF ~s.ok THEN None
       ELSE IF a.kind = "diag" /\ ~AllSame(s.D) THEN None
       ELSE IF ~Fits(a, s.D) THEN None
       ELSE IF a.legs.g
            THEN (IF a.labels.g /\ a.labels.L # a.legs.L THEN None ELSE [ok |-> TRUE, L |-> a.legs.L, D |-> s.D])
       ELSE IF a.labels.g
            THEN (IF Len(a.labels.L) # Len(s.D) THEN None ELSE [ok |-> TRUE, L |-> a.labels.L, D |-> s.D])
       ELSE IF Len(s.D) > 26 THEN None
       ELSE [ok |-> TRUE, L |-> SubSeq(Letters, 1, Len(s.D)), D |-> s.D]

\* left open: a diagonal tensor asked for with a number as shape beside legs of no rank
Askable(a) == /\ (a.shape.g /\ a.shape.int => a.kind = "diag")
              /\ (a.labels.g => Distinct(a.labels.L)) /\ (a.legs.g => Distinct(a.legs.L))

\* the entries, as a value (only when data is given and kept)
DiagOf(s, D) == IF Len(D) = 0 THEN s
                ELSE IF Len(s) = D[1] /\ Len(D) # 1 /\ Prod(D) # D[1] THEN s
                ELSE IF Prod(D) = D[1] THEN s
                ELSE LET step == SumSeq(Strides(D)) IN [i \in 1..D[1] |-> s[1 + (i - 1) * step]]
Value(a) == LET r == Deduce(a)
            IN IF a.kind = "dense" THEN Canon([L |-> r.L, D |-> r.D, re |-> a.data.re, im |-> a.data.im])
               ELSE IF Len(r.D) > 0 /\ a.data.D = <<r.D[1]>> THEN DiagExpand(r.L, r.D, a.data.re, a.data.im)
               ELSE DiagExpand(r.L, r.D, DiagOf(a.data.re, r.D), IF a.data.im = <<>> THEN <<>> ELSE DiagOf(a.data.im, r.D))
=============================================================================

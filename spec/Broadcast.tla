----------------------------- MODULE Broadcast -----------------------------
(* Shapes, flat C-order positions and broadcasting of array indices.        *)
(* A shape is a sequence of sizes, an index a sequence of 0-based integers, *)
(* a flat position is 0-based.                                              *)
EXTENDS Rat

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* size of axis i of m when s is aligned to the right
Dim(s, m, i) == IF i <= m - Len(s) THEN 1 ELSE s[i - (m - Len(s))]
Compatible(a, b) == LET m == MaxI(Len(a), Len(b))
                    IN  \A i \in 1..m : \/ Dim(a, m, i) = Dim(b, m, i)
                                        \/ Dim(a, m, i) = 1 \/ Dim(b, m, i) = 1
BShape(a, b) == LET m == MaxI(Len(a), Len(b))
                IN  [i \in 1..m |-> IF Dim(a, m, i) = 1 THEN Dim(b, m, i) ELSE Dim(a, m, i)]
RECURSIVE Unravel(_, _)
Unravel(k, s) == IF s = <<>> THEN <<>>
                 ELSE Unravel(k \div s[Len(s)], SubSeq(s, 1, Len(s) - 1)) \o <<k % s[Len(s)]>>
RECURSIVE Ravel(_, _)
Ravel(idx, s) == IF s = <<>> THEN 0
                 ELSE Ravel(SubSeq(idx, 1, Len(idx) - 1), SubSeq(s, 1, Len(s) - 1)) * s[Len(s)] + idx[Len(idx)]
\* flat position of an array of shape s that entry idx of the broadcast result reads
BAt(s, idx) == LET off == Len(idx) - Len(s)
               IN  Ravel([i \in 1..Len(s) |-> IF s[i] = 1 THEN 0 ELSE idx[i + off]], s)
BFlat(s, k, dims) == BAt(s, Unravel(k, dims))
=============================================================================

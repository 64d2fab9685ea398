------------------------------ MODULE Spectra ------------------------------
(* The two-point ("Christmas tree") order of angular power spectra.         *)
(* A list grows by one field at a time: field i appends the pairs           *)
(* (i,i), (i,i-1), ..., (i,0).  Spectra have their own lengths (ragged).    *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils

CONSTANTS MaxF,      \* number of fields reached
          RagF,      \* lists up to this many fields get every combination of lengths
          Lens,      \* possible lengths of one spectrum
          LMaxs      \* requested lmax; -1 stands for "not given"

VARIABLES n,      \* number of fields
          order,  \* sequence of pairs <<i, j>>, i >= j, 0-based
          len     \* length of each spectrum
vars == <<n, order, len>>

Block(i) == [m \in 1..(i + 1) |-> <<i, i - m + 1>>]
Tri(m) == (m * (m + 1)) \div 2

Init == n = 0 /\ order = <<>> /\ len = <<>>
AddField ==
    /\ n < MaxF
    /\ n' = n + 1
    /\ order' = order \o Block(n)
    /\ \E ls \in [1..(n + 1) -> IF n < RagF THEN Lens ELSE {2}] : len' = len \o ls
Next == AddField
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Derived notions, each defined from the order alone.                      *)
Pos(i, j) == CHOOSE k \in 1..Len(order) : order[k] = <<MaxI(i, j), MinI(i, j)>>
\* value of the spectrum of pair (i, j) at multipole l: distinct for all
Val(k, l) == 100 * k + l + 1
At(k, l) == IF l < len[k] THEN Val(k, l) ELSE 0
\* reading one spectrum with a requested lmax
GetCl(i, j, lmax) == LET k == Pos(i, j)
                         m == IF lmax < 0 THEN len[k] ELSE lmax + 1
                     IN  [l \in 1..m |-> At(k, l - 1)]
MaxLen == LET S == {len[k] : k \in 1..Len(len)} \cup {0}
          IN  CHOOSE m \in S : \A o \in S : o <= m
Cov(lmax) == LET m == IF lmax < 0 THEN MaxLen ELSE lmax + 1
             IN  [l \in 1..m |-> [i \in 1..n |-> [j \in 1..n |-> At(Pos(i - 1, j - 1), l - 1)]]]
\* HEALPix order: the diagonals one after the other
Diag(k, m) == [i \in 1..(m - k) |-> <<i - 1 + k, i - 1>>]
RECURSIVE HPOrder(_, _)
HPOrder(k, m) == IF k = m THEN <<>> ELSE Diag(k, m) \o HPOrder(k + 1, m)
HPPos(p) == CHOOSE q \in 1..Len(order) : HPOrder(0, n)[q] = p
\* permutation: HEALPix list at q is the list at ToHP[q]
ToHP == [q \in 1..Len(order) |-> Pos(HPOrder(0, n)[q][1], HPOrder(0, n)[q][2])]
FromHP == [k \in 1..Len(order) |-> HPPos(order[k])]

---------------------------------------------------------------------------
(* Properties of the design.                                                *)
CountOK == Len(order) = Tri(n) /\ Len(len) = Len(order)
FormulaOK == \A k \in 1..Len(order) :
                LET i == order[k][1] j == order[k][2]
                IN  0 <= j /\ j <= i /\ i < n /\ Tri(i) + i - j = k - 1
Bijective == \A i \in 0..(n - 1) : \A j \in 0..i :
                Cardinality({k \in 1..Len(order) : order[k] = <<i, j>>}) = 1
HPInverse == /\ {ToHP[q] : q \in 1..Len(order)} = 1..Len(order)
             /\ \A k \in 1..Len(order) : ToHP[FromHP[k]] = k
             /\ \A i \in 1..n : order[ToHP[i]] = <<i - 1, i - 1>>
Symmetric == \A lmax \in LMaxs : LET c == Cov(lmax) IN
                \A l \in DOMAIN c : \A i, j \in 1..n : c[l][i][j] = c[l][j][i]
AppendOnly == [][SubSeq(order', 1, Len(order)) = order]_vars

Rec == [n |-> n, order |-> order, len |-> len, tohp |-> ToHP, fromhp |-> FromHP,
        rag |-> IF n <= RagF
                THEN [q \in 1..Cardinality(LMaxs) |->
                        LET lm == CHOOSE x \in LMaxs : Cardinality({y \in LMaxs : y < x}) = q - 1
                        IN  [lmax |-> lm, cov |-> Cov(lm),
                             cl |-> [i \in 1..n |-> [j \in 1..n |-> GetCl(i - 1, j - 1, lm)]]]]
                ELSE <<>>]
Emit == CSVWrite("%1$s", <<ToJson(Rec)>>, IOEnv.OUT)
=============================================================================

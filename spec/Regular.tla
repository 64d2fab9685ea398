------------------------------ MODULE Regular -------------------------------
(* Lists of spectra as stacks of matrices, one multipole after another.     *)
(* Every multipole takes a matrix of a table with known regularised ones;   *)
(* trailing zeros of every spectrum may be cut off.                         *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS Table,   \* sequence of [a, r]: symmetric matrices and their regularised ones (rationals)
          KMax, Name
VARIABLES idx, cuts, lmax, stage
vars == <<idx, cuts, lmax, stage>>
n == Len(Table[1].a)
\* standard order: (1,1) (2,2) (2,1) (3,3) (3,2) (3,1) ...
Pairs == LET P[i \in 0..n] == IF i = 0 THEN <<>> ELSE P[i - 1] \o [j \in 1..i |-> <<i, i + 1 - j>>] IN P[n]
At(p, l) == Table[idx[l]].a[p[1]][p[2]]
LastOf(p) == LET S == {l \in 1..Len(idx) : At(p, l) # Q0} IN IF S = {} THEN 0 ELSE CHOOSE l \in S : \A m \in S : m <= l
Init == idx = <<>> /\ cuts = <<>> /\ lmax = 0 /\ stage = "fill"
More == /\ stage = "fill" /\ Len(idx) < KMax /\ \E t \in 1..Len(Table) : idx' = Append(idx, t)
        /\ UNCHANGED <<cuts, lmax, stage>>
Stop == /\ stage = "fill" /\ Len(idx) > 0 /\ stage' = "cut" /\ UNCHANGED <<idx, cuts, lmax>>
\* the next spectrum is cut anywhere after its last non-zero entry, and may lose all its entries
Cut == /\ stage = "cut" /\ Len(cuts) < Len(Pairs)
       /\ \E m \in {LastOf(Pairs[Len(cuts) + 1]), Len(idx)} : cuts' = Append(cuts, m)
       /\ UNCHANGED <<idx, lmax, stage>>
Choose == /\ stage = "cut" /\ Len(cuts) = Len(Pairs)
          /\ \E m \in {-1} \cup (0..(Len(idx))) : lmax' = m
          /\ stage' = "done" /\ UNCHANGED <<idx, cuts>>
Next == More \/ Stop \/ Cut \/ Choose
Spec == Init /\ [][Next]_vars
Longest == LET S == {cuts[i] : i \in 1..Len(cuts)} IN CHOOSE l \in S : \A m \in S : m <= l
Rows == IF lmax = -1 THEN Longest ELSE lmax + 1
Given == [i \in 1..Len(Pairs) |-> [l \in 1..cuts[i] |-> At(Pairs[i], l)]]
Result == [i \in 1..Len(Pairs) |-> [l \in 1..Rows |->
             IF l > Len(idx) THEN Q0 ELSE Table[idx[l]].r[Pairs[i][1]][Pairs[i][2]]]]
\* what is cut off was zero: the matrices can be read back from the list
Faithful == stage = "done" => \A i \in 1..Len(Pairs) : \A l \in 1..Len(idx) :
               (IF l <= cuts[i] THEN Given[i][l] ELSE Q0) = Table[idx[l]].a[Pairs[i][2]][Pairs[i][1]]
Emit == stage = "done" => CSVWrite("%1$s", <<ToJson([given |-> Given, result |-> Result, lmax |-> lmax, name |-> Name])>>, IOEnv.OUT)
=============================================================================

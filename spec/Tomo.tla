-------------------------------- MODULE Tomo --------------------------------
(* Tomographic bins with Gaussian errors.  The weight of redshift z in a    *)
(* bin is a combination of error functions, kept symbolically: terms        *)
(* [s, c, u], s = 1 or -1, stand for s erf(c), u = "in" being infinity.     *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS Grids,  \* sequences of rationals
          BinSets \* sequences of <<lower, upper>>, -1 for an unbounded upper edge
VARIABLES z, bins, b, k, row, out
vars == <<z, bins, b, k, row, out>>
\* argument of the error function in units of 1 / (sqrt 2 sigma_0)
Arg(x, e) == QDiv(QSub(x, e), QAdd(Q1, x))
Term(s, x, e) == IF e[1] < 0 THEN [s |-> s, inf |-> TRUE, c |-> Q0] ELSE [s |-> s, inf |-> FALSE, c |-> Arg(x, e)]
Init == z \in Grids /\ bins \in BinSets /\ b = 1 /\ k = 1 /\ row = <<>> /\ out = <<>>
\* (erf(z - lower) - erf(z - upper)) / (1 + erf(z)); the scatter is truncated at zero
Point == /\ b <= Len(bins) /\ k <= Len(z)
         /\ row' = Append(row, [num |-> <<Term(1, z[k], bins[b][1]), Term(-1, z[k], bins[b][2])>>, den |-> Arg(z[k], Q0)])
         /\ k' = k + 1 /\ UNCHANGED <<z, bins, b, out>>
Row == /\ b <= Len(bins) /\ k > Len(z) /\ out' = Append(out, row) /\ row' = <<>> /\ k' = 1 /\ b' = b + 1 /\ UNCHANGED <<z, bins>>
Next == Point \/ Row
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == b > Len(bins)
Contiguous == \A j \in 1..(Len(bins) - 1) : bins[j][2] = bins[j + 1][1]
Covering == Contiguous /\ bins[1][1] = Q0 /\ bins[Len(bins)][2][1] < 0
\* contiguous bins telescope: inner edges cancel
Terms(p) == UNION {{<<j, m>> : m \in 1..2} : j \in 1..Len(bins)}
TermAt(p, jm) == out[jm[1]][p].num[jm[2]]
Net(p, c, inf) == LET S == {jm \in Terms(p) : TermAt(p, jm).c = c /\ TermAt(p, jm).inf = inf}
                      R[T \in SUBSET S] == IF T = {} THEN 0 ELSE LET e == CHOOSE e \in T : TRUE IN TermAt(p, e).s + R[T \ {e}]
                  IN  R[S]
Telescopes == (Done /\ Contiguous) => \A p \in 1..Len(z) :
    /\ Net(p, Arg(z[p], bins[1][1]), FALSE) = 1
    /\ \A j \in 1..(Len(bins) - 1) : Net(p, Arg(z[p], bins[j][2]), FALSE) = 0
\* a covering set of bins has the numerator erf(z) - erf(-inf) = erf(z) + 1, which is the denominator
SumsToOne == (Done /\ Covering) => \A p \in 1..Len(z) :
    /\ Net(p, Arg(z[p], Q0), FALSE) = 1 /\ Net(p, Q0, TRUE) = -1
    /\ \A j \in 1..Len(bins) : out[j][p].den = Arg(z[p], Q0)
Finishes == <>Done
Emit == Done => CSVWrite("%1$s", <<ToJson([z |-> z, bins |-> bins, out |-> out, covering |-> Covering])>>, IOEnv.OUT)
=============================================================================

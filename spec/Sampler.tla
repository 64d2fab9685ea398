------------------------------ MODULE Sampler ------------------------------
(* Sequential sampling of jointly Gaussian fields with a finite window.     *)
(* One action per field: the environment picks the next row of a banded     *)
(* positive semi-definite covariance C (through a factor L nobody tells the *)
(* sampler), and the sampler derives its own row D from C and the last K    *)
(* rows only.  Fields are x_i = sum_k D[i][k] z_k with independent z_k.     *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils

CONSTANTS N,       \* number of fields
          K,       \* correlation length ncorr
          Diag,    \* conditional standard deviations to choose from (with 0)
          Off,     \* other entries of the factor
          BadBy    \* amounts by which a variance is too small (empty: none)

VARIABLES L, C, D, status
vars == <<L, C, D, status>>

Low(i) == MaxI(1, i - K)

\* requested covariance of field i with field j of its window, from the factor
CovL(row, i, j) == LET f(k) == row[k] * (IF j = i THEN row ELSE L[j])[k] IN SumR(f, 1, j)

\* the sampler: forward substitution on the window, then the residual variance.
\* A field without residual variance does not contribute.
RECURSIVE Subst(_, _, _, _)
Subst(c, i, j, a) ==      \* a: entries found so far, as a function on 1..(j-1)
    IF j = i THEN a
    ELSE LET v == IF j < Low(i) \/ D[j][j] = Q0 THEN Q0
                  ELSE LET g(k) == QMul(a[k], D[j][k])
                       IN  QDiv(QSub(c[j], QSumR(g, Low(i), j - 1)), D[j][j])
         IN  Subst(c, i, j + 1, [k \in 1..j |-> IF k < j THEN a[k] ELSE v])
Residual(c, i, a) == LET g(k) == QMul(a[k], a[k]) IN QSub(c[i], QSumR(g, 1, i - 1))
\* square root of a rational that is a square
QSqrt(q) == <<ISqrtFloor(q[1]), ISqrtFloor(q[2])>>

Init == L = <<>> /\ C = <<>> /\ D = <<>> /\ status = "ok"

Rows(i) == {r \in [1..i -> Off \cup Diag \cup {0}] :
              /\ r[i] \in Diag
              /\ \A k \in 1..(i - 1) :
                    r[k] \in IF k < Low(i) \/ L[k][k] = 0 THEN {0} ELSE Off}

\* the sampler consumes the covariance row c of field i
Sample(i, c) ==
    LET a == Subst(c, i, 1, <<>>)
        v == Residual(c, i, a)
    IN  IF v[1] < 0
        THEN D' = D /\ status' = "refused"
        ELSE D' = Append(D, [k \in 1..i |-> IF k < i THEN a[k] ELSE QSqrt(v)]) /\ status' = "ok"

Field == /\ status = "ok" /\ Len(L) < N
         /\ LET i == Len(L) + 1 IN
            \E r \in Rows(i) :
              LET c == [j \in 1..i |-> IF j < Low(i) THEN Q0 ELSE QI(CovL(r, i, j))]
              IN  L' = Append(L, r) /\ C' = Append(C, c) /\ Sample(i, c)

BadField == /\ status = "ok" /\ Len(L) < N
            /\ LET i == Len(L) + 1 IN
               \E r \in Rows(i) : \E b \in BadBy :
                 LET c == [j \in 1..i |-> IF j < Low(i) THEN Q0
                             ELSE IF j = i THEN QI(CovL(r, i, i) - r[i] * r[i] - b)
                             ELSE QI(CovL(r, i, j))]
                 IN  /\ L' = Append(L, r) /\ C' = Append(C, c) /\ Sample(i, c)

Next == Field \/ BadField
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* the covariance of the fields sampled so far is the one requested ...
FieldCov(i, j) == LET g(k) == QMul(D[i][k], D[j][k]) IN QSumR(g, 1, MinI(i, j))
Reproduced == \A i \in 1..Len(D) : \A j \in Low(i)..i : FieldCov(i, j) = C[i][j]
\* ... and nothing beyond the window is correlated
Banded == \A i \in 1..Len(D) : \A j \in 1..(Low(i) - 1) : FieldCov(i, j) = Q0
\* refused exactly when the row was made indefinite
Verdict == (status = "refused") <=>
             \E i \in 1..Len(C) : C[i][i] # QI(CovL(L[i], i, i))
\* only a window of the past is used: rows have no entries before it
Window == \A i \in 1..Len(D) : \A k \in 1..(Low(i) - 1) : D[i][k] = Q0
\* what has been sampled never changes
Prefix == [][\A i \in 1..Len(D) : D'[i] = D[i]]_vars

Terminal == Len(L) = N \/ status = "refused"
Emit == Terminal => CSVWrite("%1$s", <<ToJson([n |-> N, k |-> K, L |-> L, status |-> status,
          C |-> [i \in 1..Len(C) |-> [j \in 1..i |-> C[i][j][1]]]])>>, IOEnv.OUT)
=============================================================================

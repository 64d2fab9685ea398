------------------------------ MODULE NearCorr ------------------------------
(* Nearest correlation matrices by their optimality conditions: a Gram      *)
(* matrix X of unit vectors (picked one by one), and a null vector v of X:  *)
(* A = X - c (v v' - diag(v v')) has X as its nearest correlation matrix.   *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS N,       \* dimensions
          Units,   \* rational unit vectors
          VMax,    \* null vectors have integer entries up to this
          Cs       \* strengths (rationals, zero: X itself)
VARIABLES n, us, x, v, c
vars == <<n, us, x, v, c>>
Dot(p, q) == LET g(l) == QMul(p[l], q[l]) IN QSumR(g, 1, Len(p))
Init == n \in N /\ us = <<>> /\ x = <<>> /\ v = <<>> /\ c = Q0
Pick == /\ Len(us) < n /\ \E q \in Units : us' = Append(us, q)
        /\ UNCHANGED <<n, x, v, c>>
Gram == /\ Len(us) = n /\ x = <<>>
        /\ x' = [i \in 1..n |-> [j \in 1..n |-> Dot(us[i], us[j])]]
        /\ UNCHANGED <<n, us, v, c>>
\* sum of v_i u_i, component by component
Null(y) == \A d \in 1..Len(us[1]) : LET g(i) == QMul(QI(y[i]), us[i][d]) IN QSumR(g, 1, n) = Q0
Lead(y) == \E i \in 1..n : y[i] > 0 /\ \A j \in 1..(i - 1) : y[j] = 0
\* vectors already picked are ordered, so that permuted problems are not repeated
Perturb == /\ x # <<>> /\ v = <<>>
           /\ \E y \in {z \in [1..n -> -VMax..VMax] : Lead(z) /\ Null(z)} : v' = y
           /\ \E s \in Cs : c' = s
           /\ UNCHANGED <<n, us, x>>
Next == Pick \/ Gram \/ Perturb
Spec == Init /\ [][Next]_vars
Done == v # <<>>
A == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN Q1 ELSE QSub(x[i][j], QMul(c, QI(v[i] * v[j])))]]
UnitDiag == x # <<>> => \A i \in 1..n : x[i][i] = Q1
\* X v = 0
Kernel == Done => \A i \in 1..n : LET g(j) == QMul(x[i][j], QI(v[j])) IN QSumR(g, 1, n) = Q0
\* projection onto a convex set: the error points away from every other correlation matrix
Away == Done => \A k \in 1..n : \A q \in Units :
          LET w == [us EXCEPT ![k] = q]
              g(m) == LET i == ((m - 1) \div n) + 1 j == ((m - 1) % n) + 1
                      IN  QMul(QSub(A[i][j], x[i][j]), QSub(Dot(w[i], w[j]), x[i][j]))
          IN  QSumR(g, 1, n * n)[1] <= 0
Emit == Done => CSVWrite("%1$s", <<ToJson([x |-> x, a |-> A])>>, IOEnv.OUT)
=============================================================================

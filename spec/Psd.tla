-------------------------------- MODULE Psd --------------------------------
(* Symmetric matrices with known eigenvalues: a diagonal matrix is turned   *)
(* by reflections, one at a time.  Clipping acts on the eigenvalues only.   *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS Eigs,    \* set of sequences of integers: the eigenvalues
          Mirrors, \* set of integer vectors
          Depth,   \* reflections
          Tols     \* sequence of relative tolerances (rationals)
VARIABLES w, T, k
vars == <<w, T, k>>
n == Len(w)
Mat(f(_, _), m) == TLCEval([i \in 1..m |-> [j \in 1..m |-> f(i, j)]])
Mul(A, B) == LET f(i, j) == LET g(l) == QMul(A[i][l], B[l][j]) IN QSumR(g, 1, Len(A)) IN Mat(f, Len(A))
Tr(A) == LET f(i, j) == A[j][i] IN Mat(f, Len(A))
Id(m) == LET f(i, j) == IF i = j THEN Q1 ELSE Q0 IN Mat(f, m)
House(v) == LET s == LET g(l) == v[l] * v[l] IN SumR(g, 1, Len(v))
                f(i, j) == QSub(IF i = j THEN Q1 ELSE Q0, Norm(2 * v[i] * v[j], s))
            IN  Mat(f, Len(v))
\* T diag(e) T'
Build(e) == LET f(i, j) == LET g(l) == QMul(QMul(T[i][l], e[l]), T[j][l]) IN QSumR(g, 1, n) IN Mat(f, n)
MaxE == CHOOSE x \in {w[i] : i \in 1..n} : \A i \in 1..n : w[i] <= x
Clipped(t) == [i \in 1..n |-> QMax(QI(w[i]), QMul(t, QI(MaxE)))]
A == Build([i \in 1..n |-> QI(w[i])])
Init == w \in Eigs /\ k = 0 /\ T = Id(Len(w))
Reflect == /\ k < Depth
           /\ \E v \in {u \in Mirrors : Len(u) = n} : T' = Mul(T, House(v))
           /\ k' = k + 1 /\ w' = w
Next == Reflect
Spec == Init /\ [][Next]_vars
Orthogonal == Mul(T, Tr(T)) = Id(n)
Symmetric == Tr(A) = A
\* the columns of T are eigenvectors of both, with clipped eigenvalues of the result
Eigen == \A m \in 1..Len(Tols) : LET t == Tols[m] R == Build(Clipped(t)) IN
            \A c \in 1..n : \A i \in 1..n :
              LET g(l) == QMul(R[i][l], T[l][c]) h(l) == QMul(A[i][l], T[l][c])
              IN  /\ QSumR(g, 1, n) = QMul(Clipped(t)[c], T[i][c])
                  /\ QSumR(h, 1, n) = QMul(QI(w[c]), T[i][c])
DiagOK == \A i \in 1..n : A[i][i][1] >= 0
PosDef == \A i \in 1..n : w[i] >= 0
Emit == CSVWrite("%1$s", <<ToJson([w |-> w, a |-> A, diag |-> DiagOK, pd |-> PosDef,
           clip |-> [m \in 1..Len(Tols) |-> Build(Clipped(Tols[m]))], top |-> MaxE])>>, IOEnv.OUT)
=============================================================================

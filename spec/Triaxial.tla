------------------------------ MODULE Triaxial ------------------------------
(* Shadow of an ellipsoid with axes 1 >= zeta >= xi seen from direction n.  *)
(* The shadow is the projection of the matrix A = diag(1, zeta^2, xi^2):    *)
(* trace T = tr A - n.A n, determinant D = det(A) n.A^-1 n.  The squared    *)
(* axis ratio r solves r / (1 + r)^2 = D / T^2.                             *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS Zs,     \* axis ratios as numerators over ZD
          ZD,
          Dirs    \* <<x, y, z, |n|>> integer directions of integer length
VARIABLES zeta, xi, n
vars == <<zeta, xi, n>>
QSq(q) == QMul(q, q)
Init == /\ zeta \in {Norm(a, ZD) : a \in Zs} /\ xi \in {Norm(a, ZD) : a \in Zs} /\ n \in Dirs
        /\ QLe(xi, zeta)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
N(i) == Norm(n[i], n[4])
Unit == n[1] * n[1] + n[2] * n[2] + n[3] * n[3] = n[4] * n[4]
A == <<Q1, QSq(zeta), QSq(xi)>>
T == QSub(QAdd(A[1], QAdd(A[2], A[3])),
          QAdd(QMul(A[1], QSq(N(1))), QAdd(QMul(A[2], QSq(N(2))), QMul(A[3], QSq(N(3))))))
D == QAdd(QMul(QMul(A[2], A[3]), QSq(N(1))), QAdd(QMul(QMul(A[1], A[3]), QSq(N(2))), QMul(QMul(A[1], A[2]), QSq(N(3)))))
Ratio == QDiv(D, QSq(T))
\* r in [xi^2, 1], stated through r/(1+r)^2, which increases up to r = 1
G(r) == QDiv(r, QSq(QAdd(Q1, r)))
Bounds == QLe(G(QSq(xi)), Ratio) /\ QLe(Ratio, <<1, 4>>)
Axes == /\ (n[1] = 0 /\ n[2] = 0) => Ratio = G(QSq(zeta))
        /\ (n[1] = 0 /\ n[3] = 0) => Ratio = G(QSq(xi))
        /\ (n[2] = 0 /\ n[3] = 0 /\ zeta # Q0) => Ratio = G(QSq(QDiv(xi, zeta)))
Emit == CSVWrite("%1$s", <<ToJson([zeta |-> zeta, xi |-> xi, n |-> n, ratio |-> Ratio])>>, IOEnv.OUT)
=============================================================================

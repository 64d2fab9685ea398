----------------------------- MODULE LightCone -----------------------------
(* A light cone built shell by shell.  Each shell brings a matter field     *)
(* (a row of a banded factor L: coefficients of independent noise), moves   *)
(* the lensing recurrence one plane on, and is averaged over two galaxy     *)
(* populations: the convergence over the first, the density over the        *)
(* second.  At the end the covariance of what was accumulated must be the   *)
(* one predicted from the spectra C = L L^T alone, with the position        *)
(* weights and the multi-plane weights of the populations.                  *)
(* Distances are integers x (flat geometry); a_p = (3/2) Omega_m (1+z)/E w. *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS N, K,      \* shells, correlation length
          Diag, Off, \* entries of the factor
          Geos,      \* set of [x, a]
          Gals       \* galaxy numbers per shell
VARIABLES geo, g1, g2, L, k2, k3, d3, r23, sk, sd
vars == <<geo, g1, g2, L, k2, k3, d3, r23, sk, sd>>

Zero == [n \in 1..N |-> Q0]
VAdd(u, v) == [n \in 1..N |-> QAdd(u[n], v[n])]
VScale(q, u) == [n \in 1..N |-> QMul(q, u[n])]
VDot(u, v) == LET f(n) == QMul(u[n], v[n]) IN QSumR(f, 1, N)
X(p) == IF p = 0 THEN 0 ELSE geo.x[p]
Tot(g) == LET f(i) == g[i] IN SumR(f, 1, N)

Init == /\ geo \in Geos /\ g1 \in Gals /\ g2 \in Gals
        /\ L = <<>> /\ k2 = Zero /\ k3 = Zero /\ d3 = Zero /\ r23 = Q1 /\ sk = Zero /\ sd = Zero

Rows(i) == {r \in [1..N -> Off \cup Diag \cup {0}] :
              /\ r[i] \in Diag
              /\ \A k \in 1..N : k # i => r[k] \in IF k > i \/ k < i - K THEN {0} ELSE Off}
\* the field of the next shell arrives, and is used at once
Shell == LET i == Len(L) + 1 IN
         /\ i <= N
         /\ \E r \in Rows(i) :
              LET delta == [n \in 1..N |-> QI(r[n])]
                  x3 == X(i)  x2 == X(i - 1)  x1 == IF i < 3 THEN 0 ELSE X(i - 2)
                  n23 == Norm(x3 - x2, x3)
                  t == QDiv(Norm(x3 - x1, x3), r23)
                  f == IF i = 1 THEN Q0 ELSE QMul(geo.a[i - 1], QMul(QI(x2), n23))
                  kappa == VAdd(VAdd(VScale(QSub(Q1, t), k2), VScale(t, k3)), VScale(f, d3))
              IN  /\ L' = Append(L, r)
                  /\ k2' = k3 /\ k3' = kappa /\ d3' = delta /\ r23' = n23
                  /\ sk' = VAdd(sk, VScale(QI(g1[i]), kappa))
                  /\ sd' = VAdd(sd, VScale(QI(g2[i]), delta))
         /\ UNCHANGED <<geo, g1, g2>>
Next == Shell
Spec == Init /\ [][Next]_vars
Done == Len(L) = N
---------------------------------------------------------------------------
\* prediction: spectra and weights, no recurrence
C(i, j) == LET f(n) == L[i][n] * L[j][n] IN QI(SumR(f, 1, N))
M(i, j) == IF j >= i THEN Q0 ELSE QMul(geo.a[j], Norm(geo.x[j] * (geo.x[i] - geo.x[j]), geo.x[i]))
LensW(j) == LET f(i) == QMul(QI(g1[i]), M(i, j)) IN QDiv(QSumR(f, 1, N), QI(Tot(g1)))
PosW(j) == Norm(g2[j], Tot(g2))
Pred(u, v) == LET row(i) == LET f(j) == QMul(QMul(u[i], v[j]), C(i, j)) IN QSumR(f, 1, N) IN QSumR(row, 1, N)
LW == [j \in 1..N |-> LensW(j)]
PW == [j \in 1..N |-> PosW(j)]
MeanK == VScale(Norm(1, Tot(g1)), sk)
MeanD == VScale(Norm(1, Tot(g2)), sd)
Lensing == Done => VDot(MeanK, MeanK) = Pred(LW, LW)
Density == Done => VDot(MeanD, MeanD) = Pred(PW, PW)
Cross == Done => VDot(MeanK, MeanD) = Pred(LW, PW)
\* fields beyond the correlation length do not know of each other
Banded == \A i, j \in 1..Len(L) : AbsI(i - j) > K => C(i, j) = Q0
\* nothing of a shell is in the convergence before the next one
Causal == \A n \in 1..N : n >= Len(L) => k3[n] = Q0
Emit == Done => CSVWrite("%1$s", <<ToJson([geo |-> geo, g1 |-> g1, g2 |-> g2, L |-> L, lw |-> LW, pw |-> PW,
           kk |-> Pred(LW, LW), kd |-> Pred(LW, PW), dd |-> Pred(PW, PW)])>>, IOEnv.OUT)
=============================================================================

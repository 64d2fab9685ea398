-------------------------------- MODULE Fit --------------------------------
(* Partitions as optimisation problems: tabulated f and coefficients x such *)
(* that x satisfies the optimality conditions of the (non-negative) least   *)
(* squares problem exactly.  A behaviour sets the problem up (tables of     *)
(* the case), then picks an optimal pair; only optimal pairs are reached.   *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS Cases,   \* set of [z |-> grid of f, ws |-> windows [z, v]]
          FVals,   \* integer values of f
          XVals,   \* candidate coefficients, in units of 1/2
          Lam2,    \* square of the multiplier of the sum
          NonNeg   \* TRUE: x >= 0 required
VARIABLES cs, u, a, P, H, f, x
vars == <<cs, u, a, P, H, f, x>>
Elems(s) == {s[i] : i \in 1..Len(s)}
\* weight of entry j of a table on grid g in the linear interpolation at p; zero outside
IW(g, p, j) == IF p < g[1] \/ p > g[Len(g)] THEN Q0
               ELSE IF g[j] = p THEN Q1
               ELSE IF j < Len(g) /\ g[j] < p /\ p < g[j + 1] THEN Norm(g[j + 1] - p, g[j + 1] - g[j])
               ELSE IF j > 1 /\ g[j - 1] < p /\ p < g[j] THEN Norm(p - g[j - 1], g[j] - g[j - 1])
               ELSE Q0
Interp(g, v, p) == LET h(j) == QMul(IW(g, p, j), QI(v[j])) IN QSumR(h, 1, Len(g))
Sorted(S) == [i \in 1..Cardinality(S) |-> CHOOSE y \in S : Cardinality({w \in S : w < y}) = i - 1]
Union(c) == Sorted(Elems(c.z) \cup UNION {Elems(c.ws[i].z) : i \in 1..Len(c.ws)})
\* spacing: half the distance between the neighbours, one-sided at the ends
DZ(k) == IF k = 1 THEN QI(u[2] - u[1]) ELSE IF k = Len(u) THEN QI(u[k] - u[k - 1])
         ELSE Norm(u[k + 1] - u[k - 1], 2)
TrapOn(g, v) == LET h(k) == QMul(Norm(g[k + 1] - g[k], 2), QAdd(v[k], v[k + 1])) IN QSumR(h, 1, Len(g) - 1)
\* weight of entry j of a table in its trapezoid integral
TW(g, j) == QAdd(IF j > 1 THEN Norm(g[j] - g[j - 1], 2) ELSE Q0, IF j < Len(g) THEN Norm(g[j + 1] - g[j], 2) ELSE Q0)
Table(uu, w) == LET v == TLCEval([k \in 1..Len(uu) |-> Interp(w.z, w.v, uu[k])])
                    t == TrapOn(uu, v)
                IN  [k \in 1..Len(uu) |-> QDiv(v[k], t)]
Gcd(m, n) == LET G[p \in Nat, q \in Nat] == IF q = 0 THEN p ELSE G[q, p % q] IN G[m, n]
Lcm(m, n) == (m \div Gcd(m, n)) * n
\* rows of rationals to rows of integers (common factor per row)
LcmSeq(r) == LET L[i \in 0..Len(r)] == IF i = 0 THEN 1 ELSE Lcm(L[i - 1], r[i][2]) IN L[Len(r)]
Ints(r) == LET m == LcmSeq(r) IN [i \in 1..Len(r) |-> r[i][1] * (m \div r[i][2])]
\* the normal equations: row i of [P | H] over a common denominator
NRow(i) == LET hp(j) == LET g(k) == QMul(QMul(QMul(DZ(k), DZ(k)), a[i][k]), IW(cs.z, u[k], j))
                        IN  QAdd(QSumR(g, 1, Len(u)), QMul(QI(Lam2), TW(cs.z, j)))
               hh(l) == LET g(k) == QMul(QMul(QMul(DZ(k), DZ(k)), a[i][k]), a[l][k])
                        IN  QAdd(QSumR(g, 1, Len(u)), QI(Lam2))
           IN  Ints(TLCEval([j \in 1..(Len(cs.z) + Len(cs.ws)) |-> IF j <= Len(cs.z) THEN hp(j) ELSE hh(j - Len(cs.z))]))
Init == /\ cs \in Cases /\ u = Union(cs) /\ a = [i \in 1..Len(cs.ws) |-> Table(u, cs.ws[i])]
        /\ P = <<>> /\ H = <<>> /\ f = <<>> /\ x = <<>>
Setup == /\ P = <<>> /\ f = <<>>
         /\ \E N \in {[i \in 1..Len(cs.ws) |-> NRow(i)]} :
              /\ P' = [i \in 1..Len(cs.ws) |-> SubSeq(N[i], 1, Len(cs.z))]
              /\ H' = [i \in 1..Len(cs.ws) |-> SubSeq(N[i], Len(cs.z) + 1, Len(cs.z) + Len(cs.ws))]
         /\ UNCHANGED <<cs, u, a, f, x>>
RECURSIVE Dot(_, _, _)
Dot(r, v, n) == IF n = 0 THEN 0 ELSE r[n] * v[n] + Dot(r, v, n - 1)
\* (twice) half the negative gradient, up to a positive factor
Grad(i, g, y) == 2 * Dot(P[i], g, Len(g)) - Dot(H[i], y, Len(y))
Optimal(g, y) == \A i \in 1..Len(y) :
                    LET d == Grad(i, g, y) IN IF NonNeg /\ y[i] = 0 THEN d <= 0 ELSE d = 0
Solve == /\ P # <<>> /\ f = <<>>
         /\ \E y \in [1..Len(cs.ws) -> XVals] : \E g \in [1..Len(cs.z) -> FVals] :
              Optimal(g, y) /\ f' = g /\ x' = y
         /\ P' = <<>> /\ H' = <<>> /\ UNCHANGED <<cs, u, a>>
Next == Setup \/ Solve
Spec == Init /\ [][Next]_vars
Done == f # <<>>
\* the problem itself, from its definition
Total == LET q == [k \in 1..Len(cs.z) |-> QI(f[k])] IN TrapOn(cs.z, q)
Model(y, k) == LET h(i) == QMul(Norm(y[i], 2), a[i][k]) IN QSumR(h, 1, Len(y))
Res(y, k) == QMul(DZ(k), QSub(Interp(cs.z, f, u[k]), Model(y, k)))
Cost(y) == LET h(k) == LET r == Res(y, k) IN QMul(r, r)
               t == QSub(Total, Norm(Dot([i \in 1..Len(y) |-> 1], y, Len(y)), 2))
           IN  QAdd(QSumR(h, 1, Len(u)), QMul(QI(Lam2), QMul(t, t)))
\* no neighbouring candidate is as good
Best == Done => LET c == Cost(x) IN
          \A i \in 1..Len(x) : \A v \in XVals \ {x[i]} : QSub(Cost([x EXCEPT ![i] = v]), c)[1] > 0
Exact == \A k \in 1..Len(u) : Res(x, k) = Q0
Emit == Done => CSVWrite("%1$s", <<ToJson([c |-> cs, f |-> f, x |-> x, exact |-> Exact, total |-> Total])>>, IOEnv.OUT)
=============================================================================

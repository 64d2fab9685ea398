-------------------------------- MODULE Nnls --------------------------------
(* Non-negative least squares by the active-set method, in exact rationals. *)
(* Add a variable with the largest gradient, solve for the free variables,  *)
(* go towards that solution as far as feasible and drop what becomes zero.  *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS As,      \* set of integer matrices (sequences of rows) of full column rank
          BVals    \* integer entries of the right-hand side
VARIABLES a, b, q, x, pc, it
vars == <<a, b, q, x, pc, it>>
m == Len(a)
n == Len(a[1])
AtA(i, j) == LET g(r) == a[r][i] * a[r][j] IN SumR(g, 1, m)
Atb(i) == LET g(r) == a[r][i] * b[r] IN SumR(g, 1, m)
Grad(y, i) == LET g(j) == QMul(QI(AtA(i, j)), y[j]) IN QSub(QI(Atb(i)), QSumR(g, 1, n))
\* determinant of a square integer matrix of up to three rows
Det(M) == CASE Len(M) = 0 -> 1
            [] Len(M) = 1 -> M[1][1]
            [] Len(M) = 2 -> M[1][1] * M[2][2] - M[1][2] * M[2][1]
            [] OTHER -> M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[3][2])
                      - M[1][2] * (M[2][1] * M[3][3] - M[2][3] * M[3][1])
                      + M[1][3] * (M[2][1] * M[3][2] - M[2][2] * M[3][1])
Sorted(S) == [i \in 1..Cardinality(S) |-> CHOOSE y \in S : Cardinality({v \in S : v < y}) = i - 1]
\* least squares solution for the variables in S, zero elsewhere (Cramer)
Solve(S) == LET p == Sorted(S)
                k == Len(p)
                N == [i \in 1..k |-> [j \in 1..k |-> AtA(p[i], p[j])]]
                d == Det(N)
                C(c) == Det([i \in 1..k |-> [j \in 1..k |-> IF j = c THEN Atb(p[i]) ELSE N[i][j]]])
            IN  [i \in 1..n |-> IF i \in S THEN Norm(C(CHOOSE c \in 1..k : p[c] = i), d) ELSE Q0]
Zero == [i \in 1..n |-> Q0]
Rank == Det([i \in 1..n |-> [j \in 1..n |-> AtA(i, j)]]) # 0
Init == /\ a \in As /\ b \in [1..Len(a) -> BVals] /\ Rank
        /\ q = {} /\ x = [i \in 1..Len(a[1]) |-> Q0] /\ pc = "outer" /\ it = 0
Stop == /\ pc = "outer" /\ (\A i \in (1..n) \ q : Grad(x, i)[1] <= 0)
        /\ pc' = "done" /\ UNCHANGED <<a, b, q, x, it>>
Add == /\ pc = "outer"
       /\ \E i \in (1..n) \ q : /\ Grad(x, i)[1] > 0
                                /\ \A j \in (1..n) \ q : QSub(Grad(x, i), Grad(x, j))[1] >= 0
                                /\ q' = q \cup {i}
       /\ pc' = "inner" /\ it' = it + 1 /\ UNCHANGED <<a, b, x>>
Inner == /\ pc = "inner"
         /\ LET s == TLCEval(Solve(q))
                T == {i \in q : s[i][1] <= 0}
            IN  IF T = {} THEN x' = s /\ pc' = "outer" /\ UNCHANGED <<q, it>>
                ELSE LET al(i) == IF QSub(x[i], s[i])[1] > 0 THEN QDiv(x[i], QSub(x[i], s[i])) ELSE Q0
                         R == {al(i) : i \in T}
                         step == CHOOSE r \in R : \A o \in R : QSub(o, r)[1] >= 0
                         y == TLCEval([i \in 1..n |-> IF i \in q THEN QAdd(x[i], QMul(step, QSub(s[i], x[i]))) ELSE Q0])
                     IN  x' = y /\ q' = {i \in q : y[i][1] > 0} /\ UNCHANGED <<pc, it>>
         /\ UNCHANGED <<a, b>>
Next == Stop \/ Add \/ Inner
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Feasible == \A i \in 1..n : x[i][1] >= 0
\* optimality, and the optimum is the only one
KKT(y) == \A i \in 1..n : /\ y[i][1] >= 0 /\ Grad(y, i)[1] <= 0 /\ (y[i][1] > 0 => Grad(y, i) = Q0)
Optimal == pc = "done" => /\ KKT(x)
                          /\ \A S \in SUBSET (1..n) : LET y == Solve(S) IN KKT(y) => y = x
Cheap == it <= 3 * n
Ends == <>(pc = "done")
Emit == pc = "done" => CSVWrite("%1$s", <<ToJson([a |-> a, b |-> b, x |-> x, it |-> it])>>, IOEnv.OUT)
=============================================================================

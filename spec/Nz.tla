--------------------------------- MODULE Nz ---------------------------------
(* Parametric redshift distributions on a grid, one row per parameter set,  *)
(* normalised with the trapezoidal rule.  Parameters are such that all      *)
(* values are powers of two times integers (grid in units of its spacing):  *)
(*   "gauss" 2^(-q (t - a)^2),  "smail" t^a 2^(-q t^b), b = 1 or 2.         *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS Grids,  \* increasing sequences of non-negative integers
          Tables, \* sequences of rows [k, a, q, b]
          Norms   \* sequences of rationals: <<>> not given, one for all, or one per row
VARIABLES t, rows, norm, r, k, w, area, out, pc
vars == <<t, rows, norm, r, k, w, area, out, pc>>
Expo(row, x) == IF row.k = "gauss" THEN row.q * (x - row.a) * (x - row.a) ELSE row.q * (IF row.b = 2 THEN x * x ELSE x)
Amp(row, x) == IF row.k = "gauss" THEN 1 ELSE x ^ row.a
MaxE(row) == CHOOSE m \in {Expo(row, t[i]) : i \in 1..Len(t)} : \A i \in 1..Len(t) : Expo(row, t[i]) <= m
\* integer weights with a common factor
Weight(row, x) == Amp(row, x) * 2 ^ (MaxE(row) - Expo(row, x))
Fits(row) == \A i \in 1..Len(t) : MaxE(row) <= 20 /\ (Weight(row, t[i]) < 2 ^ 22)
Init == /\ t \in Grids /\ rows \in Tables /\ norm \in Norms
        /\ Len(norm) \in {0, 1, Len(rows)} /\ \A i \in 1..Len(rows) : Fits(rows[i])
        /\ r = 1 /\ k = 1 /\ w = <<>> /\ area = 0 /\ out = <<>> /\ pc = "value"
Value == /\ pc = "value" /\ r <= Len(rows) /\ k <= Len(t)
         /\ w' = Append(w, Weight(rows[r], t[k]))
         \* twice the integral so far
         /\ area' = IF k = 1 THEN 0 ELSE area + (w[k - 1] + w'[k]) * (t[k] - t[k - 1])
         /\ k' = k + 1 /\ UNCHANGED <<t, rows, norm, r, out, pc>>
NormOf(i) == IF norm = <<>> THEN Q1 ELSE IF Len(norm) = 1 THEN norm[1] ELSE norm[i]
Close == /\ pc = "value" /\ r <= Len(rows) /\ k > Len(t)
         /\ out' = Append(out, [i \in 1..Len(t) |-> QMul(Norm(2 * w[i], area), NormOf(r))])
         /\ r' = r + 1 /\ k' = 1 /\ w' = <<>> /\ area' = 0
         /\ pc' = IF r = Len(rows) THEN "end" ELSE "value"
         /\ UNCHANGED <<t, rows, norm>>
Next == Value \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "end"
Integral(v) == LET f(i) == QMul(Norm(t[i + 1] - t[i], 2), QAdd(v[i], v[i + 1])) IN QSumR(f, 1, Len(t) - 1)
\* small tables only: exact sums have large denominators
Normalised == \A i \in 1..Len(out) : (\A j \in 1..Len(t) : out[i][j][2] < 2000) => Integral(out[i]) = NormOf(i)
\* the mode is where it is said to be: values fall away from it
Mode == \A i \in 1..Len(out) : LET row == rows[i] IN
   \A a, b \in 1..Len(t) :
     \/ NormOf(i)[1] <= 0
     \/ \E j \in 1..Len(t) : out[i][j][1] > 40000 \/ out[i][j][2] > 40000
     \/ row.k = "gauss" /\ (AbsI(t[a] - row.a) <= AbsI(t[b] - row.a) => QLe(out[i][b], out[i][a]))
     \/ row.k = "smail" /\ t[a] # 0 /\ t[b] # 0
     \/ row.k = "smail" /\ (t[a] = 0 => out[i][a] = Q0)
Emit == Done => CSVWrite("%1$s", <<ToJson([t |-> t, rows |-> rows, norm |-> norm, out |-> out])>>, IOEnv.OUT)
=============================================================================

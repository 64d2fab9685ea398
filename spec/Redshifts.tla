----------------------------- MODULE Redshifts -----------------------------
(* Drawing from a tabulated distribution: the cumulative trapezoid is built *)
(* node by node, and a uniform number is mapped through its inverse.        *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS Grids,   \* set of increasing integer grids
          Vals,    \* possible values of the distribution at a node
          UD       \* uniform numbers are a / UD
VARIABLES z, f, cum2     \* cum2: twice the cumulative integral so far
vars == <<z, f, cum2>>

Init == /\ z \in Grids /\ f \in [1..Len(z) -> Vals] /\ cum2 = <<0>>
        /\ \E i \in 1..(Len(z) - 1) : f[i] + f[i + 1] > 0
Node == LET i == Len(cum2) IN
        /\ i < Len(z)
        /\ cum2' = Append(cum2, cum2[i] + (f[i] + f[i + 1]) * (z[i + 1] - z[i]))
        /\ UNCHANGED <<z, f>>
Next == Node
Spec == Init /\ [][Next]_vars
Done == Len(cum2) = Len(z)
Tot == cum2[Len(z)]
Cdf(i) == Norm(cum2[i], Tot)
\* least and greatest z with cumulative value u (a plateau has many)
Lo(u) == LET j == CHOOSE i \in 1..Len(z) : QLe(u, Cdf(i)) /\ \A k \in 1..(i - 1) : QLt(Cdf(k), u)
         IN  IF Cdf(j) = u THEN QI(z[j])
             ELSE QAdd(QI(z[j - 1]), QMul(QI(z[j] - z[j - 1]),
                       QDiv(QSub(u, Cdf(j - 1)), QSub(Cdf(j), Cdf(j - 1)))))
Hi(u) == LET j == CHOOSE i \in 1..Len(z) : QLe(Cdf(i), u) /\ \A k \in (i + 1)..Len(z) : QLt(u, Cdf(k))
         IN  IF Cdf(j) = u THEN QI(z[j]) ELSE Lo(u)
U(a) == Norm(a, UD)
\* the map is increasing, stays within the support and has the right distribution
Monotone == Done => \A a \in 1..(UD - 2) : QLe(Hi(U(a)), Lo(U(a + 1)))
Support == Done => \A a \in 1..(UD - 1) : \E i \in 1..(Len(z) - 1) :
              /\ QLe(QI(z[i]), Lo(U(a))) /\ QLe(Lo(U(a)), QI(z[i + 1])) /\ f[i] + f[i + 1] > 0
Mass == Done => \A i \in 1..(Len(z) - 1) :
           LET S == {a \in 1..(UD - 1) : QLt(QI(z[i]), Lo(U(a))) /\ QLe(Hi(U(a)), QI(z[i + 1]))}
               T == {a \in 1..(UD - 1) : QLt(Cdf(i), U(a)) /\ QLe(U(a), Cdf(i + 1)) /\ Hi(U(a)) = Lo(U(a))}
           IN  {a \in S : Hi(U(a)) = Lo(U(a))} = T
Emit == Done => CSVWrite("%1$s", <<ToJson([z |-> z, f |-> f,
           lo |-> [a \in 1..(UD - 1) |-> Lo(U(a))], hi |-> [a \in 1..(UD - 1) |-> Hi(U(a))]])>>, IOEnv.OUT)
=============================================================================

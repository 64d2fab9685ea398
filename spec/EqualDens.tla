----------------------------- MODULE EqualDens -----------------------------
(* Bins of equal density: edges are walked from the left; an edge is where  *)
(* the cumulative integral, linear between grid points, has its share.      *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS Grids, Values, NBins
VARIABLES z, v, nb, cum, i, edges, pc
vars == <<z, v, nb, cum, i, edges, pc>>
\* twice the cumulative integral
Init == /\ z \in Grids /\ v \in [1..Len(z) -> Values] /\ nb \in NBins
        /\ \E k \in 1..Len(z) : v[k] > 0
        /\ cum = <<0>> /\ i = 1 /\ edges = <<>> /\ pc = "sum"
Sum == /\ pc = "sum"
       /\ LET k == Len(cum) IN
          IF k < Len(z) THEN cum' = Append(cum, cum[k] + (v[k] + v[k + 1]) * (z[k + 1] - z[k])) /\ UNCHANGED <<i, pc>>
          ELSE pc' = "edge" /\ UNCHANGED <<cum, i>>
       /\ UNCHANGED <<z, v, nb, edges>>
Total == cum[Len(cum)]
Target == Norm(Total * Len(edges), nb)
\* step to the interval that holds the target; flat stretches leave a choice, kept as an interval
Move == /\ pc = "edge" /\ Len(edges) <= nb /\ i < Len(z) /\ QLt(QI(cum[i + 1]), Target)
        /\ i' = i + 1 /\ UNCHANGED <<z, v, nb, cum, edges, pc>>
Lo == IF QI(cum[i]) = Target THEN QI(z[i])
      ELSE QAdd(QI(z[i]), QMul(QI(z[i + 1] - z[i]), QDiv(QSub(Target, QI(cum[i])), QI(cum[i + 1] - cum[i]))))
Hi == LET S == {k \in 1..Len(z) : QI(cum[k]) = Target} IN
      IF S = {} THEN Lo ELSE QI(z[CHOOSE k \in S : \A j \in S : j <= k])
Edge == /\ pc = "edge" /\ Len(edges) <= nb /\ ~(i < Len(z) /\ QLt(QI(cum[i + 1]), Target))
        /\ edges' = Append(edges, [lo |-> Lo, hi |-> Hi])
        /\ pc' = IF Len(edges) = nb THEN "end" ELSE "edge"
        /\ UNCHANGED <<z, v, nb, cum, i>>
Next == Sum \/ Move \/ Edge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "end"
Cum(x) == LET k == CHOOSE k \in 1..(Len(z) - 1) : QLe(QI(z[k]), x) /\ QLe(x, QI(z[k + 1]))
          IN  QAdd(QI(cum[k]), QMul(QI(cum[k + 1] - cum[k]), QDiv(QSub(x, QI(z[k])), QI(z[k + 1] - z[k]))))
EqualShares == Done => \A b \in 1..nb : \A x \in {edges[b].lo, edges[b].hi} : \A y \in {edges[b + 1].lo, edges[b + 1].hi} :
                 QMul(QI(nb), QSub(Cum(y), Cum(x))) = QI(Total)
Ends == Done => /\ Len(edges) = nb + 1 /\ edges[1].lo = QI(z[1]) /\ edges[nb + 1].hi = QI(z[Len(z)])
Increasing == Done => \A b \in 1..nb : QLt(edges[b].hi, edges[b + 1].lo)
Finishes == <>Done
Emit == Done => CSVWrite("%1$s", <<ToJson([z |-> z, v |-> v, nb |-> nb, edges |-> edges])>>, IOEnv.OUT)
=============================================================================

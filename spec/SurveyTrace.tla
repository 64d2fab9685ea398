---------------------------- MODULE SurveyTrace ----------------------------
(* Distributions and bin edges recorded from the library.                   *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Expo(row, x) == IF row.k = "gauss" THEN row.q * (x - row.a) * (x - row.a) ELSE row.q * (IF row.b = 2 THEN x * x ELSE x)
Amp(row, x) == IF row.k = "gauss" THEN 1 ELSE x ^ row.a
\* ratio of two entries: e.v[i] / e.v[j] = (Amp i / Amp j) 2^(Expo j - Expo i)
Pow(q, n) == IF n >= 0 THEN Norm(q[1] * 2 ^ n, q[2]) ELSE Norm(q[1], q[2] * 2 ^ (-n))
BadRow(e) ==
  {c \in {"entries have the shape of the distribution"} :
     Len(e.rel) # Len(e.t) \/ \E i \in 1..Len(e.t) :
        e.rel[i] # Pow(Norm(Amp(e.row, e.t[i]), Amp(e.row, e.t[e.ref])), Expo(e.row, e.t[e.ref]) - Expo(e.row, e.t[i]))}
  \cup {c \in {"the integral is the normalisation"} : e.area # e.norm}
\* twice the cumulative integral, linear between grid points
Cums(z, v) == LET C[k \in 1..Len(z)] == IF k = 1 THEN 0 ELSE C[k - 1] + (v[k - 1] + v[k]) * (z[k] - z[k - 1]) IN C
CumAt(z, C, x) == LET k == CHOOSE k \in 1..(Len(z) - 1) : QLe(QI(z[k]), x) /\ QLe(x, QI(z[k + 1]))
                  IN  QAdd(QI(C[k]), QMul(QI(C[k + 1] - C[k]), QDiv(QSub(x, QI(z[k])), QI(z[k + 1] - z[k]))))
BadEdges(e) ==
  LET N == Len(e.bins) C == Cums(e.z, e.v) In(x) == IsQ(x) /\ QLe(QI(e.z[1]), x) /\ QLe(x, QI(e.z[Len(e.z)]))
  IN  IF N # e.nb THEN {"number of bins"}
      ELSE IF \E b \in 1..N : ~In(e.bins[b][1]) \/ ~In(e.bins[b][2]) THEN {"edges are on the grid"}
      ELSE {c \in {"bins are contiguous"} : \E b \in 1..(N - 1) : e.bins[b][2] # e.bins[b + 1][1]}
           \cup {c \in {"bins have equal shares"} : \E b \in 1..N :
                   QMul(QI(N), QSub(CumAt(e.z, C, e.bins[b][2]), CumAt(e.z, C, e.bins[b][1]))) # QI(C[Len(e.z)])}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == IF Trace[l].op = "row" THEN BadRow(Trace[l]) ELSE BadEdges(Trace[l])
                IN  b # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> b])>>, IOEnv.OUT)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

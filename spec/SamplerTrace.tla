---------------------------- MODULE SamplerTrace ----------------------------
(* Rows recorded from the library's decomposition, long sequences of        *)
(* fields.  A line starts a sequence ("start", with window k) or gives the  *)
(* covariance row c and the row w returned for the next field: w and c run  *)
(* over the window, oldest field first, and end with the field itself.      *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, rows     \* rows[i]: weight of z_j in field i, for the last k+1 fields
tvars == <<l, k, rows>>

\* weights of field at distance d before the current one (0: current), by distance of z
Weight(hist, d, e) == \* weight of z_{i-e} in x_{i-d}
    IF e < d \/ e - d > k \/ d >= Len(hist) THEN Q0 ELSE hist[Len(hist) - d][k + 1 - (e - d)]

Judge(e) ==
    LET hist == Append(rows, e.w)
        i == Len(hist)
        cov(d) == LET g(m) == QMul(Weight(hist, 0, m), Weight(hist, d, m)) IN QSumR(g, d, k)
    IN  {c \in {"covariance of a sampled field"} :
            \E d \in 0..MinI(k, i - 1) : cov(d) # e.c[k + 1 - d]}
        \cup {c \in {"weight given to a field before the first"} :
            \E d \in 0..k : d >= i /\ e.w[k + 1 - d] # Q0}
        \cup {c \in {"negative deviation"} : e.w[k + 1][1] < 0}
        \cup {c \in {"length of a row"} : Len(e.w) # k + 1}

Report(b) == b # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> b])>>, IOEnv.OUT)
TraceInit == l = 1 /\ k = 0 /\ rows = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.op = "start" THEN k' = e.k /\ rows' = <<>>
       ELSE /\ Report(Judge(e))
            /\ rows' = Append(rows, e.w)
            /\ k' = k
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

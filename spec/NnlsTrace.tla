------------------------------ MODULE NnlsTrace -----------------------------
(* Solutions recorded from the library for integer systems of any size with *)
(* integer optimum: the solution (rounded; "near" tells whether it was an   *)
(* integer vector) must satisfy the optimality conditions exactly.          *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Report(b) == b # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> b])>>, IOEnv.OUT)
Row(e, r) == LET g(j) == e.a[r][j] * e.x[j] IN SumR(g, 1, Len(e.x))
Check(e) == LET res == TLCEval([r \in 1..Len(e.a) |-> e.b[r] - Row(e, r)])
                grad == TLCEval([i \in 1..Len(e.x) |-> LET g(r) == e.a[r][i] * res[r] IN SumR(g, 1, Len(e.a))])
            IN  {s \in {"the solution is the optimum of the system"} : ~e.near}
                \cup {s \in {"all entries are non-negative"} : \E i \in 1..Len(e.x) : e.x[i] < 0}
                \cup {s \in {"the gradient vanishes for positive entries"} : e.near /\ \E i \in 1..Len(e.x) : e.x[i] > 0 /\ grad[i] # 0}
                \cup {s \in {"no zero entry would improve the solution"} : e.near /\ \E i \in 1..Len(e.x) : e.x[i] = 0 /\ grad[i] > 0}
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(Check(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

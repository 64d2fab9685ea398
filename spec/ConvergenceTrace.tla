------------------------- MODULE ConvergenceTrace --------------------------
(* Factors measured on maps returned by the library, one line per map:      *)
(* signed squares of the factor at every multipole (<<0, 0>> if it is not   *)
(* such a number).                                                          *)
EXTENDS Rat, Json, CSV, IOUtils
CONSTANTS Num, Den
SgnSq(q) == QMul(q, QAbs(q))
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(e) == {c \in {"the map is a multiple of the convergence at every multipole"} : ~e.pure}
          \cup (IF Len(e.fac) # e.lmax + 1 THEN {"number of multipoles"} ELSE {})
          \cup {c \in {"factor of the " \o e.name} : \E i \in 1..Len(e.fac) :
                  LET C(k) == IF k = 0 THEN Q0
                              ELSE QNeg(IF e.name = "potential" THEN Norm(4, k * k * (k + 1) * (k + 1))
                                        ELSE IF e.name = "deflection" THEN Norm(4, k * (k + 1))
                                        ELSE QMul(Norm((k - 1) * (k + 2), k * (k + 1)),
                                                  IF e.disc THEN SgnSq(Norm(k + Num, k + Den)) ELSE Q1))
                  IN  e.fac[i] # C(i - 1)}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Bad(Trace[l]) IN b # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> b])>>, IOEnv.OUT)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

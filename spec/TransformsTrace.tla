-------------------------- MODULE TransformsTrace --------------------------
(* Correlations, inverses and slopes recorded from the library, one line    *)
(* per pair and correlation; between two "L" the recorded x and inverse are *)
(* exponentials.                                                            *)
EXTENDS Transforms
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(e) ==
  IF ~(Knows(e.t1, e.t2) \/ Knows(e.t2, e.t1)) THEN {c \in {"unsupported pairs are refused"} : ~e.refused}
  ELSE IF e.refused THEN {"supported pairs are not refused"}
  ELSE LET f == IF Knows(e.t1, e.t2) THEN e.t1 ELSE e.t2
           s == IF Knows(e.t1, e.t2) THEN e.t2 ELSE e.t1
       IN  {c \in {"correlation of the transformed fields"} : e.corr # Corr(f, s, e.x)}
           \cup {c \in {"slope of the correlation"} : e.dcorr # DCorr(f, s, e.x)}
           \cup {c \in {"the inverse undoes the correlation"} : e.back # e.x}
TraceInit == l = 1 /\ t1 = 0 /\ t2 = 0 /\ x = 0 /\ pc = "" /\ who = 0 /\ val = 0
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Bad(Trace[l]) IN b # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> b])>>, IOEnv.OUT)
             /\ l' = l + 1 /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<l, vars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

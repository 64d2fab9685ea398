----------------------------- MODULE BinsTrace -----------------------------
(* Redshifts drawn for arrays of bin labels.  Every entry comes from the    *)
(* distribution of its own label and from a random number of its own:       *)
(* "num" gives, per entry, the position in the random stream of the number  *)
(* that the distribution of its label maps to it (0: there is none).        *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(e) == LET S == {e.num[i] : i \in 1..Len(e.num)}
          IN  {x \in {"not drawn from the distribution of its label"} : 0 \in S}
              \cup {x \in {"random number used for two entries"} : 0 \notin S /\ Cardinality(S) # Len(e.num)}
              \cup {x \in {"number of redshifts"} : Len(e.num) # Len(e.labels) \/ e.shape # e.got}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Bad(Trace[l])
                IN  b # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> b])>>, IOEnv.OUT)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

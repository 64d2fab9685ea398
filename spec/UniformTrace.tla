---------------------------- MODULE UniformTrace ----------------------------
(* Batches of uniform positions recorded from the library.  "lon" and "lat" *)
(* are the positions in the random stream whose numbers determine the       *)
(* coordinates (0: no number of the stream does).                           *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, k, used
tvars == <<l, st, k, used>>
n == Trace[st].n
Report(b) == b # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> b])>>, IOEnv.OUT)
Elems(s) == {s[i] : i \in 1..Len(s)}
TraceInit == l = 1 /\ st = 1 /\ k = 0 /\ used = {}
Batch(e) ==
    LET t == Elems(e.lon) \cup Elems(e.lat)
    IN  /\ Report({x \in {"more batches than populations"} : k >= Len(n)}
            \cup {x \in {"number of points of the population"} : k < Len(n) /\ (Len(e.lon) # n[k + 1] \/ Len(e.lat) # n[k + 1])}
            \cup {x \in {"count reported"} : k < Len(n) /\ e.count # [i \in 1..Len(n) |-> IF i = k + 1 THEN n[i] ELSE 0]}
            \cup {x \in {"coordinate not uniform in a random number"} : 0 \in t}
            \cup {x \in {"random number used twice"} : t \cap used # {} \/ Cardinality(t) # Len(e.lon) + Len(e.lat)})
        /\ k' = k + 1 /\ used' = used \cup t /\ UNCHANGED st
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                CASE e.op = "start" -> st' = l /\ k' = 0 /\ used' = {}
                  [] e.op = "batch" -> Batch(e)
                  [] e.op = "end" -> Report({x \in {"number of batches"} : k # Len(n)}) /\ UNCHANGED <<st, k, used>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

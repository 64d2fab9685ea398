-------------------------- MODULE DistributeTrace ---------------------------
(* Assignments recorded from the library: "start" names the windows and the *)
(* number of redshifts, every "rows" event holds the next redshifts and the *)
(* shells they were given, "end" closes the call.                           *)
EXTENDS Distribute
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, n
tvars == <<l, st, n, ws, zs, out>>
Report(b) == b # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> b])>>, IOEnv.OUT)
TraceInit == l = 1 /\ st = 1 /\ n = 0 /\ ws = <<>> /\ zs = <<>> /\ out = <<>>
Start(e) == st' = l /\ n' = 0 /\ UNCHANGED <<ws, zs, out>>
Rows(e) == LET w == Trace[st].ws
               S == TLCEval([x \in {e.z[i] : i \in 1..Len(e.z)} |-> Support(w, x)])
               bad == {x \in {"shell outside of the support of the redshift"} : \E i \in 1..Len(e.z) : e.o[i] \notin S[e.z[i]]}
                      \cup {x \in {"no shell although one covers the redshift"} : \E i \in 1..Len(e.z) : e.o[i] = -1 /\ S[e.z[i]] # {-1}}
           IN  Report(bad) /\ n' = n + Len(e.z) /\ UNCHANGED <<st, ws, zs, out>>
End(e) == Report({x \in {"one entry per redshift"} : n # Trace[st].size}) /\ UNCHANGED <<st, n, ws, zs, out>>
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN CASE e.ev = "start" -> Start(e) [] e.ev = "rows" -> Rows(e) [] OTHER -> End(e)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

---------------------------- MODULE LensingTrace ----------------------------
(* Long recorded histories in a flat geometry (integer distances), one map  *)
(* value: after every offer the convergence must be the direct lensing sum. *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, planes   \* planes: accepted [x, a] with a = (3/2) Omega_m (1+z)/E w delta as a rational
tvars == <<l, planes>>
Report(b) == b # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> b])>>, IOEnv.OUT)
TraceInit == l = 1 /\ planes = <<>>
Last == IF planes = <<>> THEN 0 ELSE planes[Len(planes)].x
Kappa(pl) == LET xi == pl[Len(pl)].x
                 t(j) == QMul(pl[j].a, Norm(pl[j].x * (xi - pl[j].x), xi))
             IN  QSumR(t, 1, Len(pl) - 1)
Offer(e) ==
    IF e.x > Last
    THEN LET pl == Append(planes, [x |-> e.x, a |-> e.a]) IN
         /\ planes' = pl
         /\ Report({x \in {"plane refused although the redshift increases"} : ~e.ok}
              \cup {x \in {"convergence is the direct lensing sum"} : e.ok /\ e.kappa # Kappa(pl)}
              \cup {x \in {"source plane reported"} : e.ok /\ e.zsrc # e.x})
    ELSE /\ UNCHANGED planes
         /\ Report({x \in {"plane accepted although the redshift does not increase"} : e.ok}
              \cup {x \in {"refused plane changed the convergence"} : planes # <<>> /\ e.kappa # Kappa(planes)}
              \cup {x \in {"refused plane changed the source plane"} : e.zsrc # Last})
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                CASE e.op = "start" -> planes' = <<>>
                  [] e.op = "offer" -> Offer(e)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

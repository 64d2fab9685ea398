---------------------------- MODULE HelpersTrace ----------------------------
(* Recorded answers of the array helpers, recomputed entry by entry.        *)
EXTENDS Arr, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Pad(p, d) == IF p = <<>> THEN d ELSE p
Want(e) == CASE e.ev = "first" -> First(e.l)
             [] e.ev = "leading" -> Lead(e.l, e.n)
             [] e.ev = "interp" -> Along(e.a, e.ax, e.t, LAMBDA y, s : Lin(e.x, y, s, Pad(e.pad[1], y[1]), Pad(e.pad[2], y[Len(y)])))
             [] e.ev = "product" -> Product(e.fs)
             [] e.ev = "bias" -> EffBias(e.fs[1].x, e.fs[1].y, e.fs[2].x, e.fs[2].y)
             [] e.ev = "cum" -> Make(e.a.sh, LAMBDA j : Cum(e.x, Slice(e.a, Len(e.a.sh), j))[Last(j) + 1])
             [] e.ev = "weights" -> Weights(e.a, e.b)
             [] e.ev = "alm" -> [p \in 1..Len(e.alm) |-> e.alm[p] * e.bl[Ell(p) + 1]]
Clause(e) == CASE e.ev = "first" -> "the first axis is common, all others follow the usual rules"
               [] e.ev = "leading" -> "all but the trailing axes follow the usual rules"
               [] e.ev = "interp" -> "every slice is interpolated linearly"
               [] e.ev = "product" -> "trapezoids of the product on the union of the grids over the common range"
               [] e.ev = "bias" -> "effective bias is the weighted average"
               [] e.ev = "cum" -> "cumulative integral adds trapezoids from zero along the last axis"
               [] e.ev = "weights" -> "weights are normalised over shells, then biased"
               [] e.ev = "alm" -> "coefficients are multiplied by the factor of their own multipole"
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ (Want(Trace[l]) # Trace[l].out => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> {Clause(Trace[l])}])>>, IOEnv.OUT))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

---------------------------- MODULE PrepareTrace ----------------------------
(* Recorded preparations of longer lists of spectra, judged entry by entry. *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Tri(m) == (m * (m + 1)) \div 2
Pos(i, j) == Tri(MaxI(i, j)) + AbsI(i - j) + 1
Val(q, m) == ((q * 7 + m * 5) % 11) + 1
At(len, q, m) == IF m < len[q] THEN Val(q, m) ELSE 0
\* walking the list pair by pair: e.out[q] = [keep, win] as recognised from the result
CutBad(e) ==
    IF Len(e.out) # Tri(e.n) THEN {"length of the list"}
    ELSE UNION {UNION {
      LET q == Pos(i, j)
          far == e.ncorr >= 0 /\ i - j > e.ncorr
          a == IF far THEN 0 ELSE e.len[q]
          b == IF e.lmax >= 0 THEN MinI(a, e.lmax + 1) ELSE a
          w == IF e.nside >= 0 /\ e.lmax < 0 THEN MinI(b, 3 * e.nside) ELSE b
          r == e.out[q]
      IN  {c \in {"spectrum of distant fields not emptied"} : far /\ r.keep # 0}
          \cup {c \in {"number of multipoles kept"} : ~far /\ r.keep # w}
          \cup {c \in {"values changed"} : r.keep > 0 /\ r.win = 2}
          \cup {c \in {"pixel window applied without request"} : r.keep > 0 /\ r.win = 1 /\ e.nside < 0}
          \cup {c \in {"pixel window not applied"} : r.keep > 0 /\ r.win = 0 /\ e.nside >= 0}
      : j \in 0..i} : i \in 0..(e.n - 1)}
MixBad(e) ==
    LET nl == IF e.lmax >= 0 THEN e.lmax + 1
              ELSE LET S == {e.len[q] : q \in 1..Len(e.len)} \cup {0} IN CHOOSE m \in S : \A o \in S : o <= m
        want(m) == LET g(i) == LET h(j) == e.u[i] * e.v[j] * At(e.len, Pos(i - 1, j - 1), m) IN SumR(h, 1, e.n)
                   IN  SumR(g, 1, e.n)
    IN  IF Len(e.got) # nl THEN {"length of an effective spectrum"}
        ELSE {c \in {"effective spectrum is the double sum over fields"} : \E m \in 1..nl : e.got[m] # want(m - 1)}
Bad(e) == IF e.op = "cut" THEN CutBad(e) ELSE MixBad(e)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Bad(Trace[l]) IN b # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> b])>>, IOEnv.OUT)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

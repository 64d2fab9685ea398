---------------------------- MODULE SpectraTrace ----------------------------
(* Recorded answers of the library about the order of spectra, checked      *)
(* against the closed form proved equivalent to the order in Spectra.tla    *)
(* (FormulaOK).  Every line is judged; rejected ones are reported.          *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Tri(m) == (m * (m + 1)) \div 2
Idx(i, j) == Tri(i) + i - j
\* position of pair (i, j), i >= j, in HEALPix order for n fields
HPIdx(n, i, j) == LET k == i - j IN k * n - ((k * (k - 1)) \div 2) + j

Bad(e) ==
  CASE e.op = "nfields" ->
         (IF e.n >= 0 /\ Tri(e.n) # e.m THEN {"number of fields of a list"} ELSE {})
         \cup (IF e.n < 0 /\ \E k \in {e.hint - 1, e.hint, e.hint + 1} : k >= 0 /\ Tri(k) = e.m
               THEN {"triangle number refused"} ELSE {})
         \cup (IF e.n < -1 THEN {"unexpected answer for the number of fields"} ELSE {})
    [] e.op = "pairs" ->
         {c \in {"enumeration order"} :
            \E q \in 1..Len(e.pairs) :
               LET i == e.pairs[q][1] j == e.pairs[q][2]
               IN  ~(0 <= j /\ j <= i /\ Idx(i, j) = e.start + q - 1)}
    [] e.op = "perm" ->
         \* e.to[q+1] = k: entry q of the HEALPix list is entry k of the list
         {c \in {"HEALPix order"} :
            \/ Len(e.to) # Tri(e.n)
            \/ \E q \in 1..Len(e.to) :
                 LET i == e.pair[q][1] j == e.pair[q][2]
                 IN  ~(/\ 0 <= j /\ j <= i /\ i < e.n
                       /\ HPIdx(e.n, i, j) = q - 1 /\ e.to[q] = Idx(i, j))}
         \cup {c \in {"HEALPix order is not inverted"} :
            \/ Len(e.back) # Tri(e.n)
            \/ \E q \in 1..Len(e.back) : e.back[q] # q - 1}
    [] e.op = "getcl" ->
         {c \in {"spectrum looked up for a pair"} :
            e.got # Idx(MaxI(e.i, e.j), MinI(e.i, e.j))}
         \cup (IF e.len # e.explen THEN {"length of a spectrum looked up"} ELSE {})
    [] OTHER -> {"unknown event"}

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Bad(Trace[l])
                IN  b # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> b])>>, IOEnv.OUT)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

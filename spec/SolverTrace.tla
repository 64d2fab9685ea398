---------------------------- MODULE SolverTrace ----------------------------
(* A solution observed after 0, 1, 2, ... iterations: for every number of   *)
(* iterations the status, whether the realised spectrum is that of the      *)
(* solution, whether it is within the tolerance, whether the last step was  *)
(* small, whether the error grew, and whether the solution moved.           *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(e) ==
  LET S == e.steps IN
  {c \in {"the realised spectrum is that of the solution"} : \E k \in 1..Len(S) : ~S[k].real}
  \cup {c \in {"bit one tells whether the spectrum is within the tolerance"} : \E k \in 1..Len(S) : ((S[k].info % 2 = 1) # S[k].conv)}
  \cup {c \in {"bit two is set only after a small step"} : \E k \in 1..Len(S) : S[k].info >= 2 /\ ~S[k].small}
  \cup {c \in {"status is zero to three"} : \E k \in 1..Len(S) : S[k].info \notin 0..3}
  \cup {c \in {"the error does not increase"} : \E k \in 1..Len(S) : S[k].grew}
  \cup {c \in {"a finished iteration stays as it is"} : \E k \in 1..(Len(S) - 1) : S[k].info > 0 /\ (S[k + 1].moved \/ S[k + 1].info # S[k].info)}
  \cup {c \in {"the monopole is kept"} : \E k \in 1..Len(S) : ~S[k].mono}
  \cup {c \in {"a small step ends the iteration"} : \E k \in 2..Len(S) : S[k].moved /\ S[k].tiny /\ S[k].info < 2}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Bad(Trace[l]) IN b # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> b])>>, IOEnv.OUT)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

---------------------------- MODULE JaxRngTrace -----------------------------
(* Keys seen at the boundary to jax.random, numbered by value: an event     *)
(* lists the keys used up by an operation, the keys it handed out, and the  *)
(* numbers drawn (numbered by value).  "new" starts a fresh generator.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, used, live, drawn
tvars == <<l, used, live, drawn>>
Range(s) == {s[i] : i \in 1..Len(s)}
Report(b) == b # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> b])>>, IOEnv.OUT)
TraceInit == l = 1 /\ used = {} /\ live = {} /\ drawn = {}
Step(e) == IF e.op = "new" THEN used' = {} /\ live' = {} /\ drawn' = {}
           ELSE /\ Report({s \in {"a key was used twice"} : Range(e.used) \cap used # {} \/ Cardinality(Range(e.used)) # Len(e.used)}
                          \cup {s \in {"keys handed out are distinct from all others"} :
                                  Cardinality(Range(e.keys)) # Len(e.keys) \/ Range(e.keys) \cap (live \cup used) # {}}
                          \cup {s \in {"the same numbers were drawn twice"} : Range(e.out) \cap drawn # {}})
                /\ used' = used \cup Range(e.used) /\ live' = live \cup Range(e.keys) /\ drawn' = drawn \cup Range(e.out)
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

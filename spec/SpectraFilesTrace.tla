-------------------------- MODULE SpectraFilesTrace -------------------------
(* Saves and loads recorded from the library: values as integers.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, last      \* last: file -> line of the last save
Report(b) == b # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> b])>>, IOEnv.OUT)
TraceInit == l = 1 /\ last = <<0, 0, 0, 0>>
Step(e) == IF e.ev = "save" THEN last' = [last EXCEPT ![e.f] = l]
           ELSE /\ UNCHANGED last
                /\ Report({s \in {"same number of spectra"} : Len(e.v) # Len(Trace[last[e.f]].v)}
                          \cup {s \in {"spectra in order with the values last saved"} : e.v # Trace[last[e.f]].v})
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, last>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

---------------------------- MODULE HistoryTrace ----------------------------
(* Recorded programs.  A line holds the contents (by number) of everything   *)
(* handed in or out so far, the states of the generators and of the global   *)
(* random state, and for a call its key (operation, contents of the          *)
(* arguments, state of the generator), its result and the state it left the  *)
(* generator in.                                                             *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, heap, fam, gens, glob, memo, last
vars == <<l, heap, fam, gens, glob, memo, last>>
T == Trace[l]
TraceInit == l = 1 /\ heap = <<>> /\ fam = <<>> /\ gens = <<>> /\ glob = 0 /\ memo = <<>> /\ last = [key |-> 0, res |-> 0]
Old == 1..Len(heap)
Bad == CASE T.ev = "start" -> {}
         [] T.ev \in {"call", "item", "open"} ->
              {c \in {"arguments and earlier results keep their contents"} : \E i \in Old : T.heap[i] # heap[i]}
              \cup {c \in {"only the given generator is drawn from"} : \E g \in 1..Len(gens) : g # T.g /\ T.gens[g] # gens[g]}
              \cup {c \in {"operations without random numbers draw none"} : ~T.draws /\ T.gens # gens}
              \cup {c \in {"the global state is untouched"} : T.glob # glob}
              \cup {c \in {"the result is an array of the backend of the arguments"} : ~T.backend}
              \cup {c \in {"the same call gives the same result and leaves the generator in the same state"} :
                      T.key # 0 /\ \E m \in 1..Len(memo) : memo[m].key = T.key /\ (memo[m].res # T.res \/ memo[m].after # T.after)}
         [] T.ev = "scribble" ->
              {c \in {"results share no memory with those of other calls"} : \E i \in Old : fam[i] # T.fam /\ T.heap[i] # heap[i]}
         [] T.ev = "memo" ->
              {c \in {"the same call gives the same result in every program"} : T.key = last.key /\ T.res # last.res}
Step == IF T.ev = "start"
        THEN heap' = <<>> /\ fam' = <<>> /\ gens' = T.gens /\ glob' = T.glob /\ memo' = <<>> /\ last' = last
        ELSE IF T.ev = "memo"
        THEN last' = [key |-> T.key, res |-> T.res] /\ UNCHANGED <<heap, fam, gens, glob, memo>>
        ELSE /\ heap' = T.heap /\ fam' = fam \o [i \in 1..(Len(T.heap) - Len(heap)) |-> T.fam]
             /\ gens' = T.gens /\ glob' = glob /\ last' = last
             /\ memo' = IF T.ev = "call" THEN Append(memo, [key |-> T.key, res |-> T.res, after |-> T.after]) ELSE memo
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step
             /\ (Bad # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> Bad])>>, IOEnv.OUT))
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================

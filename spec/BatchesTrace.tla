---------------------------- MODULE BatchesTrace ----------------------------
(* Batches recorded from the library against the contract of Batches.tla:   *)
(* "start" gives the non-empty pixels of every population, "batch" the run  *)
(* of (pixel, number) pairs in the order emitted, the population whose      *)
(* entry was reported, the number reported, what other entries held, and    *)
(* the number of points (total).                                            *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, p, q, lost     \* st: line of the current start event
tvars == <<l, st, p, q, lost>>
pops == Trace[st].pops
bat == Trace[st].batch

\* first population at or after i that still has points
RECURSIVE Skip(_, _)
Skip(i, c) == IF i > Len(pops) THEN i
              ELSE IF c < Len(pops[i]) THEN i ELSE Skip(i + 1, 0)
Report(b) == b # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> b])>>, IOEnv.OUT)

TraceInit == l = 1 /\ st = 1 /\ p = 1 /\ q = 0 /\ lost = FALSE
Start(e) == st' = l /\ p' = 1 /\ q' = 0 /\ lost' = FALSE
Batch(e) ==
    LET r == e.runs
        i == Skip(p, q)
        c == IF i = p THEN q ELSE 0
        inorder == /\ i <= Len(pops) /\ c + Len(r) <= Len(pops[i])
                   /\ \A m \in 1..Len(r) : r[m] = pops[i][c + m]
        bad == {x \in {"points are not the next points of the current population"} : r # <<>> /\ ~inorder}
               \cup {x \in {"batch too large"} : e.total > bat /\ Len(r) > 1}
               \cup {x \in {"count reported"} : e.reported # e.total \/ e.others # 0}
               \cup {x \in {"count reported for another population"} : r # <<>> /\ inorder /\ e.pop # i}
               \cup {x \in {"position outside of the sphere"} : ~e.valid}
    IN  /\ IF lost THEN TRUE ELSE Report(bad)
        /\ IF r = <<>> THEN UNCHANGED <<p, q, lost>>
           ELSE IF inorder THEN p' = i /\ q' = c + Len(r) /\ lost' = lost
           ELSE lost' = TRUE /\ UNCHANGED <<p, q>>
        /\ UNCHANGED st
End == /\ Report({x \in {"points missing at the end"} : ~lost /\ Skip(p, q) <= Len(pops)})
       /\ UNCHANGED <<st, p, q, lost>>
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                CASE e.op = "start" -> Start(e)
                  [] e.op = "batch" -> Batch(e)
                  [] e.op = "end" -> End
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

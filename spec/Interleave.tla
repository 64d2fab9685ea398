----------------------------- MODULE Interleave -----------------------------
(* Independent lazy sequences advanced in any order.  seq[g] counts the     *)
(* items sequence g has yielded; item m of g is the value <<g, m>> whatever *)
(* happened to the others.  Every complete schedule is emitted.             *)
EXTENDS Rat, Json, CSV, IOUtils
CONSTANTS Lengths     \* length of each sequence
VARIABLES got, sched
vars == <<got, sched>>
G == 1..Len(Lengths)
Init == got = [g \in G |-> <<>>] /\ sched = <<>>
Step(g) == /\ Len(got[g]) < Lengths[g]
           /\ got' = [got EXCEPT ![g] = Append(@, <<g, Len(@) + 1>>)]
           /\ sched' = Append(sched, g)
Next == \E g \in G : Step(g)
Spec == Init /\ [][Next]_vars
Alone == \A g \in G : \A m \in 1..Len(got[g]) : got[g][m] = <<g, m>>
Emit == (\A g \in G : Len(got[g]) = Lengths[g]) =>
           CSVWrite("%1$s", <<ToJson([sched |-> sched])>>, IOEnv.OUT)
=============================================================================

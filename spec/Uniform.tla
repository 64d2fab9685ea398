------------------------------ MODULE Uniform ------------------------------
(* Uniform points for an array of populations: one batch per population in  *)
(* index order.  Every point takes two numbers of the random stream that    *)
(* nobody else takes, one for longitude and one for the sine of latitude.   *)
EXTENDS Broadcast, FiniteSets, Json, CSV, IOUtils

CONSTANTS Shapes, Counts

VARIABLES shape, n, k, used, batches
vars == <<shape, n, k, used, batches>>

Init == /\ shape \in Shapes /\ n \in [1..Prod(shape) -> Counts]
        /\ k = 0 /\ used = 0 /\ batches = <<>>
\* the batch of the next population takes the next 2 n numbers of the stream
Batch == /\ k < Prod(shape)
         /\ batches' = Append(batches,
              [count |-> [i \in 1..Prod(shape) |-> IF i = k + 1 THEN n[i] ELSE 0],
               lon |-> [m \in 1..n[k + 1] |-> used + m],
               lat |-> [m \in 1..n[k + 1] |-> used + n[k + 1] + m]])
         /\ used' = used + 2 * n[k + 1]
         /\ k' = k + 1 /\ UNCHANGED <<shape, n>>
Next == Batch
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Taken(b) == {b.lon[m] : m \in 1..Len(b.lon)} \cup {b.lat[m] : m \in 1..Len(b.lat)}
Fresh == \A i, j \in 1..Len(batches) : i < j => Taken(batches[i]) \cap Taken(batches[j]) = {}
Exact == \A i \in 1..Len(batches) : Cardinality(Taken(batches[i])) = 2 * n[i]
Reported == LET f(i) == batches[k].count[i] IN k > 0 => SumR(f, 1, Prod(shape)) = Len(batches[k].lon)
Finishes == <>(k = Prod(shape))
Emit == (k = Prod(shape)) => CSVWrite("%1$s", <<ToJson([shape |-> shape, n |-> n, batches |-> batches])>>, IOEnv.OUT)
=============================================================================

------------------------------ MODULE Segments ------------------------------
(* Arrays of counts broadcast against arrays of parameters: the output is   *)
(* one contiguous segment per entry of the broadcast shape, in index order, *)
(* using the parameters of that entry.                                      *)
EXTENDS Broadcast, FiniteSets, Json, CSV, IOUtils
CONSTANTS Shapes,    \* leading shapes to combine
          NPar,      \* number of parameter arrays
          Counts,    \* possible counts
          MaxVary    \* count arrays up to this size get every combination of counts
VARIABLES s, cnt, dims, k, seg, total
vars == <<s, cnt, dims, k, seg, total>>

RECURSIVE AllShape(_)
AllShape(t) == IF Len(t) = 1 THEN t[1] ELSE BShape(AllShape(SubSeq(t, 1, Len(t) - 1)), t[Len(t)])
RECURSIVE AllOk(_)
AllOk(t) == IF Len(t) = 1 THEN TRUE
            ELSE LET h == SubSeq(t, 1, Len(t) - 1) IN AllOk(h) /\ Compatible(AllShape(h), t[Len(t)])
Init == /\ s \in [1..(NPar + 1) -> Shapes] /\ AllOk(s)
        /\ dims = AllShape(s)
        /\ IF Prod(s[1]) <= MaxVary THEN cnt \in [1..Prod(s[1]) -> Counts]
           ELSE cnt = [i \in 1..Prod(s[1]) |-> (i * 2) % 5]
        /\ k = 0 /\ seg = <<>> /\ total = 0
Entry == /\ k < Prod(dims)
         /\ LET idx == Unravel(k, dims)
                c == cnt[BAt(s[1], idx) + 1]
            IN  /\ seg' = Append(seg, [from |-> total, count |-> c,
                                       par |-> [j \in 1..NPar |-> BAt(s[j + 1], idx)]])
                /\ total' = total + c
         /\ k' = k + 1 /\ UNCHANGED <<s, cnt, dims>>
Next == Entry
Spec == Init /\ [][Next]_vars
Partition == \A i \in 1..Len(seg) : seg[i].from = (IF i = 1 THEN 0 ELSE seg[i - 1].from + seg[i - 1].count)
InBounds == \A i \in 1..Len(seg) : \A j \in 1..NPar : seg[i].par[j] \in 0..(Prod(s[j + 1]) - 1)
Emit == (k = Prod(dims)) => CSVWrite("%1$s", <<ToJson([s |-> s, cnt |-> cnt, dims |-> dims, seg |-> seg, total |-> total])>>, IOEnv.OUT)
=============================================================================

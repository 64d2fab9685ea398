------------------------------ MODULE Pairing ------------------------------
(* A list of spectra is processed one after another: spectrum k belongs to  *)
(* the fields (i, j) of the triangle 0 0, 1 1, 1 0, 2 2, 2 1, 2 0, ...      *)
(* Lengths may differ and be zero; a list of the wrong length is refused.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxN, Lens, Kinds
VARIABLES fields, count, lens, k, i, j, out, status
vars == <<fields, count, lens, k, i, j, out, status>>
Tri(n) == (n * (n + 1)) \div 2
Init == /\ \E n \in 0..MaxN, d \in {-1, 0, 1} :
             /\ Tri(n) + d >= 0
             /\ fields \in [1..n -> Kinds] /\ count = Tri(n) + d
        /\ lens = <<>> /\ k = 1 /\ i = 0 /\ j = 0 /\ out = <<>> /\ status = "run"
Refuse == /\ status = "run" /\ count # Tri(Len(fields)) /\ status' = "refused" /\ UNCHANGED <<fields, count, lens, k, i, j, out>>
Step == /\ status = "run" /\ count = Tri(Len(fields)) /\ k <= count
        /\ \E n \in Lens : /\ lens' = Append(lens, n)
                          /\ out' = Append(out, [i |-> i, j |-> j, n |-> n, empty |-> n = 0])
        /\ k' = k + 1
        /\ IF j = 0 THEN i' = i + 1 /\ j' = i + 1 ELSE i' = i /\ j' = j - 1
        /\ UNCHANGED <<fields, count, status>>
Finish == /\ status = "run" /\ count = Tri(Len(fields)) /\ k > count /\ status' = "done" /\ UNCHANGED <<fields, count, lens, k, i, j, out>>
Next == Refuse \/ Step \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Pairs == {<<out[a].i, out[a].j>> : a \in 1..Len(out)}
\* every pair once, auto-spectra on the diagonal positions, new fields appear with their auto-spectrum first
EveryPair == status = "done" => /\ Pairs = {<<a, b>> \in (0..(Len(fields) - 1)) \X (0..(Len(fields) - 1)) : b <= a}
                                /\ Cardinality(Pairs) = Len(out)
AutoFirst == \A a \in 1..Len(out) : \A f \in {out[a].i, out[a].j} : \E b \in 1..a : out[b].i = f /\ out[b].j = f
Position == \A a \in 1..Len(out) : a = Tri(out[a].i) + (out[a].i - out[a].j) + 1
Refused == status = "refused" <=> (status # "run" /\ count # Tri(Len(fields)))
Ends == <>(status # "run")
Emit == status # "run" => CSVWrite("%1$s", <<ToJson([fields |-> fields, count |-> count, lens |-> lens, out |-> out, status |-> status])>>, IOEnv.OUT)
=============================================================================

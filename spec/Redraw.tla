------------------------------- MODULE Redraw -------------------------------
(* Rejection sampling of N entries: every entry outside of its range is     *)
(* drawn again until it is inside; entries inside keep their value.  The    *)
(* environment decides where each new draw falls.                           *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS N,         \* entries
          R,         \* rounds after which the environment only offers values inside
          Out,       \* places outside of the range
          In         \* places inside the range (including on its edges)
VARIABLES val, hist
vars == <<val, hist>>
E == 1..N
Good(x) == x[2] \in In
Init == val = [i \in E |-> <<0, "none">>] /\ hist = <<>>
Missing == {i \in E : ~Good(val[i])}
Draw == /\ Missing # {}
        /\ \E d \in [E -> Out \cup In] :
             \* entries that are inside are not offered a choice that matters
             /\ \A i \in E \ Missing : d[i] \in {CHOOSE o \in Out : TRUE}
             /\ Len(hist) >= R => \A i \in Missing : d[i] \in In
             /\ hist' = Append(hist, d)
             /\ val' = [i \in E |-> IF i \in Missing THEN <<Len(hist) + 1, d[i]>> ELSE val[i]]
Next == Draw
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* an accepted value is final, and is the first one inside the range
Final == [][\A i \in E : Good(val[i]) => val'[i] = val[i]]_vars
First == \A i \in E : Good(val[i]) =>
            /\ hist[val[i][1]][i] = val[i][2]
            /\ \A r \in 1..(val[i][1] - 1) : hist[r][i] \in Out
Stops == <>(Missing = {})
Emit == (Missing = {}) => CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.OUT)
=============================================================================

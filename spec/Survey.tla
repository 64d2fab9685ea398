------------------------------- MODULE Survey -------------------------------
(* A simulation of a galaxy survey, shell after shell.  Each shell brings a *)
(* matter map d (values -1, 0, 1 on classes of pixels); the lensing maps    *)
(* move on to it; every population p samples its galaxies from the map in   *)
(* batches of at most B, r[p] (1 + d) v / 2 of them in a pixel of           *)
(* visibility v; every batch receives redshifts of the shell, shears of the *)
(* lensing maps of the shell, and is appended to the catalogue.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Json, CSV, IOUtils
CONSTANTS N, P, Q,       \* shells, populations, classes of pixels
          Rates, Vis, B,
          Maps           \* admissible maps: sequences of -1, 0, 1
VARIABLES vis, rate, ds, pop, left, cat, lensed
vars == <<vis, rate, ds, pop, left, cat, lensed>>
Count(d, p, q) == (rate[p] * (1 + d[q]) * vis[q]) \div 2
None == [q \in 1..Q |-> 0]
Total(f) == LET T[q \in 0..Q] == IF q = 0 THEN 0 ELSE T[q - 1] + f[q] IN T[Q]
Init == /\ vis \in [1..Q -> Vis] /\ rate \in [1..P -> Rates]
        /\ ds = <<>> /\ pop = P /\ left = None /\ cat = <<>> /\ lensed = 0
\* next shell: matter and lensing move together
Shell == /\ pop = P /\ left = None /\ Len(ds) < N
         /\ \E d \in Maps : /\ ds' = Append(ds, d)
                            /\ pop' = 1 /\ left' = [q \in 1..Q |-> Count(d, 1, q)]
         /\ lensed' = lensed + 1
         /\ UNCHANGED <<vis, rate, cat>>
Pop == /\ left = None /\ pop < P /\ ds # <<>>
       /\ pop' = pop + 1 /\ left' = [q \in 1..Q |-> Count(ds[Len(ds)], pop + 1, q)]
       /\ UNCHANGED <<vis, rate, ds, cat, lensed>>
\* the pixels in order, as many galaxies as fit in the batch
Batch == /\ left # None
         /\ LET Before[q \in 1..Q] == IF q = 1 THEN 0 ELSE Before[q - 1] + left[q - 1]
                Take(q) == LET room == B - Before[q] IN IF room <= 0 THEN 0 ELSE IF left[q] < room THEN left[q] ELSE room
                Rows[q \in 0..Q] == IF q = 0 THEN <<>>
                                    ELSE Rows[q - 1] \o [i \in 1..Take(q) |-> [shell |-> Len(ds), pop |-> pop, class |-> q, map |-> lensed]]
            IN  /\ left' = [q \in 1..Q |-> left[q] - Take(q)]
                /\ cat' = cat \o Rows[Q]
         /\ UNCHANGED <<vis, rate, ds, pop, lensed>>
Next == Shell \/ Pop \/ Batch
Spec == Init /\ [][Next]_vars
End == Len(ds) = N /\ pop = P /\ left = None
\* every galaxy of the catalogue carries the lensing of its own shell
Own == \A i \in 1..Len(cat) : cat[i].map = cat[i].shell
Seen == \A i \in 1..Len(cat) : vis[cat[i].class] > 0 /\ ds[cat[i].shell][cat[i].class] > -1 /\ rate[cat[i].pop] > 0
Sorted == \A i \in 1..(Len(cat) - 1) : cat[i].shell <= cat[i + 1].shell
Exact == End => \A s \in 1..N, p \in 1..P, q \in 1..Q :
           Cardinality({i \in 1..Len(cat) : cat[i].shell = s /\ cat[i].pop = p /\ cat[i].class = q}) = Count(ds[s], p, q)
Emit == End => CSVWrite("%1$s", <<ToJson([vis |-> vis, rate |-> rate, ds |-> ds, n |-> Len(cat)])>>, IOEnv.OUT)
=============================================================================

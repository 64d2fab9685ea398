------------------------------- MODULE JaxRng -------------------------------
(* Generators backed by splittable keys.  Keys form a free tree: splitting  *)
(* key k gives k.0, k.1, ...  Using a key (drawing or splitting) uses it    *)
(* up.  Generators are created from keys, by spawning or from split keys.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Draws,   \* names of distributions
          Fan,     \* numbers of keys or children
          MaxGen, Depth
VARIABLES gens,    \* current key of every generator
          loose,   \* keys handed out and not adopted by a generator yet
          used,    \* keys that were used up
          reused,  \* some key was used twice
          log
vars == <<gens, loose, used, reused, log>>
Kid(k, i) == Append(k, i)
Init == gens = <<<<>>>> /\ loose = <<>> /\ used = {} /\ reused = FALSE /\ log = <<>>
Use(S) == used' = used \cup S /\ reused' = (reused \/ S \cap used # {})
Draw(g, d) == /\ Use({gens[g], Kid(gens[g], 1)}) /\ gens' = [gens EXCEPT ![g] = Kid(@, 0)]
              /\ UNCHANGED loose /\ log' = Append(log, [op |-> d, g |-> g, n |-> 0])
Split(g, n) == /\ Use({gens[g]}) /\ gens' = [gens EXCEPT ![g] = Kid(@, 0)]
               /\ loose' = loose \o [i \in 1..n |-> Kid(gens[g], i)]
               /\ log' = Append(log, [op |-> "split", g |-> g, n |-> n])
Spawn(g, n) == /\ Len(gens) + n <= MaxGen /\ Use({gens[g]})
               /\ gens' = [gens EXCEPT ![g] = Kid(@, 0)] \o [i \in 1..n |-> Kid(gens[g], i)]
               /\ UNCHANGED loose /\ log' = Append(log, [op |-> "spawn", g |-> g, n |-> n])
\* the first loose key becomes a generator
Adopt == /\ loose # <<>> /\ Len(gens) < MaxGen /\ gens' = Append(gens, Head(loose)) /\ loose' = Tail(loose)
         /\ UNCHANGED <<used, reused>> /\ log' = Append(log, [op |-> "adopt", g |-> 0, n |-> 0])
Next == /\ Len(log) < Depth
        /\ \/ \E g \in 1..Len(gens) : (\E d \in Draws : Draw(g, d)) \/ (\E n \in Fan : Split(g, n) \/ Spawn(g, n))
           \/ Adopt
Spec == Init /\ [][Next]_vars
Fresh == ~reused
Live == [i \in 1..(Len(gens) + Len(loose)) |-> IF i <= Len(gens) THEN gens[i] ELSE loose[i - Len(gens)]]
Distinct == \A i, j \in 1..Len(Live) : i # j => Live[i] # Live[j]
Unused == \A i \in 1..Len(Live) : Live[i] \notin used
\* no live key descends from another: their futures never meet
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Apart == \A i, j \in 1..Len(Live) : i # j => ~Prefix(Live[i], Live[j])
Emit == Len(log) = Depth => CSVWrite("%1$s", <<ToJson(log)>>, IOEnv.OUT)
=============================================================================

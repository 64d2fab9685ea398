---------------------------- MODULE SpectraFiles ----------------------------
(* Saving and loading lists of spectra.  A file holds the last list saved   *)
(* to it; loaded lists and lists in memory are separate from it.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Files, Lists,   \* Lists: sequence of sequences of lengths
          Depth
VARIABLES disk,   \* file -> 0 (absent) or [k |-> list, v |-> version of its values]
          ver,    \* version of the values of every list in memory
          held,   \* lists loaded: [k, v, dirty]
          log
vars == <<disk, ver, held, log>>
None == [k |-> 0, v |-> 0]
Init == disk = [f \in Files |-> None] /\ ver = [k \in 1..Len(Lists) |-> 0] /\ held = <<>> /\ log = <<>>
Rec(e) == log' = Append(log, e)
Save(f, k) == /\ disk' = [disk EXCEPT ![f] = [k |-> k, v |-> ver[k]]] /\ UNCHANGED <<ver, held>>
              /\ Rec([op |-> "save", f |-> f, k |-> k, v |-> ver[k]])
Load(f) == /\ disk[f] # None /\ held' = Append(held, [k |-> disk[f].k, v |-> disk[f].v, dirty |-> FALSE])
           /\ UNCHANGED <<disk, ver>> /\ Rec([op |-> "load", f |-> f, k |-> disk[f].k, v |-> disk[f].v])
\* values of a list in memory are overwritten: files do not notice
Edit(k) == /\ \E f \in Files : disk[f].k = k
           /\ ver' = [ver EXCEPT ![k] = @ + 1] /\ UNCHANGED <<disk, held>> /\ Rec([op |-> "edit", f |-> 0, k |-> k, v |-> ver[k] + 1])
\* values of a loaded list are overwritten: neither the file nor other loaded lists notice
Spoil(h) == /\ ~held[h].dirty /\ held' = [held EXCEPT ![h].dirty = TRUE] /\ UNCHANGED <<disk, ver>>
            /\ Rec([op |-> "spoil", f |-> h, k |-> 0, v |-> 0])
\* a loaded list is saved again
Resave(f, h) == /\ ~held[h].dirty /\ disk' = [disk EXCEPT ![f] = [k |-> held[h].k, v |-> held[h].v]]
                /\ UNCHANGED <<ver, held>> /\ Rec([op |-> "resave", f |-> f, k |-> h, v |-> 0])
Next == /\ Len(log) < Depth
        /\ \/ \E f \in Files : \E k \in 1..Len(Lists) : Save(f, k)
           \/ \E f \in Files : Load(f)
           \/ \E k \in 1..Len(Lists) : Edit(k)
           \/ \E h \in 1..Len(held) : Spoil(h) \/ (\E f \in Files : Resave(f, h))
Spec == Init /\ [][Next]_vars
\* a file only changes by being saved to
Stable == [][\A f \in Files : disk'[f] # disk[f] => log'[Len(log')].op \in {"save", "resave"} /\ log'[Len(log')].f = f]_vars
\* what is loaded is what was last saved under the name
Latest == log # <<>> /\ log[Len(log)].op = "load" =>
            LET e == log[Len(log)]
                S == {i \in 1..Len(log) : log[i].op \in {"save", "resave"} /\ log[i].f = e.f}
            IN  S # {} /\ LET i == CHOOSE i \in S : \A j \in S : j <= i
                          IN  log[i].op = "save" => log[i].k = e.k /\ log[i].v = e.v
Emit == Len(log) = Depth => CSVWrite("%1$s", <<ToJson([log |-> log, held |-> held])>>, IOEnv.OUT)
=============================================================================

------------------------------ MODULE Catalog -------------------------------
(* Catalogue files and the writers open on them.  Rows are numbered in the  *)
(* order in which they are handed over; a file is a sequence of rows.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Files, Rows,   \* possible numbers of rows of a write
          Forms,         \* ways to hand over columns
          Depth
VARIABLES file,   \* file -> sequence of rows, <<0>> for "does not exist"
          open,   \* file -> "no", or the number of writes so far
          ext,    \* file -> extension name given (0: none)
          n, log
vars == <<file, open, ext, n, log>>
Gone == <<0>>
Init == /\ file = [f \in Files |-> Gone] /\ open = [f \in Files |-> 0] /\ ext = [f \in Files |-> 0] /\ n = 1 /\ log = <<>>
Rec(e) == log' = Append(log, e)
Ids(k) == [i \in 1..k |-> n + i - 1]
Open(f, x) == /\ open[f] = 0 /\ open' = [open EXCEPT ![f] = 1] /\ ext' = [ext EXCEPT ![f] = x]
              /\ file' = [file EXCEPT ![f] = <<>>] /\ UNCHANGED n
              /\ Rec([op |-> "open", f |-> f, x |-> x, k |-> 0, at |-> 0])
Write(f, form, k) == /\ open[f] > 0 /\ open' = [open EXCEPT ![f] = @ + 1]
                     /\ file' = [file EXCEPT ![f] = @ \o Ids(k)] /\ n' = n + k /\ UNCHANGED ext
                     /\ Rec([op |-> form, f |-> f, x |-> 0, k |-> k, at |-> n])
\* a write of a column that is not in the table is refused and changes nothing
Refuse(f) == /\ open[f] > 1 /\ UNCHANGED <<file, open, ext, n>>
             /\ Rec([op |-> "refuse", f |-> f, x |-> 0, k |-> 1, at |-> n])
Leave(f, how) == /\ open[f] > 0 /\ open' = [open EXCEPT ![f] = 0] /\ UNCHANGED <<file, ext, n>>
                 /\ Rec([op |-> how, f |-> f, x |-> 0, k |-> 0, at |-> 0])
Next == /\ Len(log) < Depth
        /\ \E f \in Files : \/ \E x \in {0, 1} : Open(f, x)
                            \/ \E form \in Forms : \E k \in Rows : Write(f, form, k)
                            \/ Refuse(f)
                            \/ Leave(f, "close") \/ Leave(f, "raise")
Spec == Init /\ [][Next]_vars
Ordered == \A f \in Files : \A i \in 1..(Len(file[f]) - 1) : file[f][i] < file[f][i + 1]
Disjoint == \A f, g \in Files : f # g => {file[f][i] : i \in 1..Len(file[f])} \cap {file[g][i] : i \in 1..Len(file[g])} \subseteq {0}
\* a file holds what was written since it was last opened
Session == \A f \in Files : file[f] # Gone =>
             LET S == {i \in 1..Len(log) : log[i].op = "open" /\ log[i].f = f}
                 o == CHOOSE i \in S : \A j \in S : j <= i
                 W == {i \in (o + 1)..Len(log) : log[i].f = f /\ log[i].op \in Forms}
             IN  {file[f][i] : i \in 1..Len(file[f])} = UNION {log[i].at..(log[i].at + log[i].k - 1) : i \in W}
Wrote(f) == LET S == {i \in 1..Len(log) : log[i].op = "open" /\ log[i].f = f}
                o == CHOOSE i \in S : \A j \in S : j <= i
            IN  \E i \in (o + 1)..Len(log) : log[i].f = f /\ log[i].op \in Forms
Closed == \A f \in Files : open[f] = 0
\* histories worth replaying: everything closed at the end
Emit == (Len(log) = Depth /\ Closed) => CSVWrite("%1$s", <<ToJson([log |-> log,
           files |-> [f \in Files |-> file[f]], ext |-> [f \in Files |-> ext[f]],
           wrote |-> [f \in Files |-> file[f] # Gone /\ Wrote(f)]])>>, IOEnv.OUT)
=============================================================================

-------------------------------- MODULE Axes --------------------------------
(* Broadcasting: arrays are added one after the other, then brought to one  *)
(* shape, with the first axis common or with all but some trailing axes.    *)
EXTENDS Arr, Json, CSV, IOUtils
CONSTANTS Shapes, MaxArrays, MaxTrail
VARIABLES l, n, mode, out, done
vars == <<l, n, mode, out, done>>
\* every entry is another number, in every array
Fresh(sh) == [sh |-> sh, v |-> [p \in 1..Prod(sh) |-> QI(100 * (Len(l) + 1) + p)]]
Init == l = <<>> /\ n = <<>> /\ mode \in {"first", "leading"} /\ out = <<>> /\ done = FALSE
Add == /\ ~done /\ Len(l) < MaxArrays
       /\ \E sh \in Shapes : \E t \in 0..(IF mode = "leading" THEN MinI(MaxTrail, Len(sh)) ELSE 0) :
            l' = Append(l, Fresh(sh)) /\ n' = Append(n, t)
       /\ UNCHANGED <<mode, out, done>>
Apply == /\ ~done /\ Len(l) > 0 /\ done' = TRUE
         /\ out' = IF mode = "first" THEN First(l) ELSE Lead(l, n)
         /\ UNCHANGED <<l, n, mode>>
Next == Add \/ Apply
Spec == Init /\ [][Next]_vars
ShapesOf(s) == [k \in 1..Len(s) |-> s[k].sh]
\* one common shape, apart from the trailing axes
OneShape == (done /\ out # <<>>) => \A j, k \in 1..Len(out) :
    SubSeq(out[j].sh, 1, Len(out[j].sh) - n[j]) = SubSeq(out[k].sh, 1, Len(out[k].sh) - n[k])
\* what is brought to one shape stays there
Again == (done /\ out # <<>>) => (IF mode = "first" THEN First(out) ELSE Lead(out, n)) = out
\* an array that has the shape already is unchanged, and entries of each come only from itself
OwnEntries == (done /\ out # <<>>) => \A k \in 1..Len(out) :
    /\ {out[k].v[p] : p \in 1..Len(out[k].v)} \subseteq {l[k].v[p] : p \in 1..Len(l[k].v)}
    /\ (out[k].sh = l[k].sh => out[k] = l[k])
    /\ (Prod(out[k].sh) > 0 => {out[k].v[p] : p \in 1..Len(out[k].v)} = {l[k].v[p] : p \in 1..Len(l[k].v)})
\* refused exactly if two sizes differ and neither is one
Refused == done => (out = <<>> <=> (IF mode = "first" THEN FirstShape(ShapesOf(l)) ELSE LeadShape(ShapesOf(l), n)) = Bad)
\* the first row of the first-axis result is the usual broadcast of the first rows
Row(a, i) == IF a.sh = <<>> THEN a ELSE Make(Tail(a.sh), LAMBDA j : At(a, <<IF a.sh[1] = 1 THEN 0 ELSE i>> \o j))
Rows == (done /\ out # <<>> /\ mode = "first" /\ out[1].sh # <<>>) =>
    \A i \in 0..(out[1].sh[1] - 1) : LET r == [k \in 1..Len(l) |-> Row(l[k], i)] IN
        Lead(r, [k \in 1..Len(l) |-> 0]) = [k \in 1..Len(l) |-> Row(out[k], i)]
Emit == done => CSVWrite("%1$s", <<ToJson([mode |-> mode, l |-> l, n |-> n, out |-> out])>>, IOEnv.OUT)
=============================================================================

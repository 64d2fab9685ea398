------------------------------ MODULE Batches ------------------------------
(* Batched sampling of points from a map of counts, in groups of pixels.    *)
(* One action tallies a group into the current batch, the other one yields. *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils

CONSTANTS P,        \* number of pixels
          Counts,   \* possible counts of a pixel
          Groups,   \* possible group sizes
          Sizes     \* possible batch sizes

VARIABLES n, grp, bat, start, stop, size, left, out
vars == <<n, grp, bat, start, stop, size, left, out>>

Sum(a, b) == LET f(p) == n[p] IN SumR(f, a + 1, b)
Init == /\ n \in [1..P -> Counts]
        /\ grp \in Groups /\ bat \in Sizes
        /\ start = 0 /\ stop = 0 /\ size = 0 /\ left = Sum(0, P) /\ out = <<>>
Hi == MinI(P, stop + grp)
Full == ~(size + Sum(stop, Hi) < MinI(bat, left))
Tally == /\ left > 0 /\ ~Full
         /\ stop' = stop + grp /\ size' = size + Sum(stop, Hi)
         /\ UNCHANGED <<n, grp, bat, start, left, out>>
\* furthest pixel that still fits the batch, at least one pixel
Fit == LET S == {m \in 0..(Hi - stop) : size + Sum(stop, stop + m) <= bat}
       IN  CHOOSE m \in S : \A o \in S : o <= m
Yield == /\ left > 0 /\ Full
         /\ LET e == MaxI(stop + Fit, start + 1)
            IN  /\ out' = Append(out, <<start, e>>)
                /\ left' = left - Sum(start, e)
                /\ start' = e /\ stop' = e
         /\ size' = 0 /\ UNCHANGED <<n, grp, bat>>
Next == Tally \/ Yield
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every point exactly once, in pixel order
Contiguous == /\ \A b \in 1..Len(out) : out[b][1] = (IF b = 1 THEN 0 ELSE out[b - 1][2])
              /\ left = Sum(IF out = <<>> THEN 0 ELSE out[Len(out)][2], P)
Bounded == \A b \in 1..Len(out) : \/ Sum(out[b][1], out[b][2]) <= bat
                                  \/ Cardinality({p \in (out[b][1] + 1)..out[b][2] : n[p] > 0}) = 1
InRange == left > 0 => start < P /\ stop < P
Done == <>(left = 0)
Emit == (left = 0) => CSVWrite("%1$s", <<ToJson([n |-> n, grp |-> grp, bat |-> bat])>>, IOEnv.OUT)
=============================================================================

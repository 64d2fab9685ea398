----------------------------- MODULE Distribute -----------------------------
(* Redshifts assigned to shells, batch after batch.  Redshifts and grids    *)
(* are integers (even ones are nodes).  Every draw picks one shell out of   *)
(* the support of the redshift; -1 stands for "no shell".                   *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS B,       \* batch size
          WinSets, \* sequences of windows [z, v]
          Zs,      \* redshifts
          MaxSize
VARIABLES ws, zs, out
vars == <<ws, zs, out>>
Interp(w, x) == IF x < w.z[1] \/ x > w.z[Len(w.z)] THEN Q0
                ELSE IF x = w.z[Len(w.z)] THEN QI(w.v[Len(w.z)])
                ELSE LET i == CHOOSE j \in 1..(Len(w.z) - 1) : w.z[j] <= x /\ x < w.z[j + 1]
                     IN  QAdd(QI(w.v[i]), QMul(QI(w.v[i + 1] - w.v[i]), Norm(x - w.z[i], w.z[i + 1] - w.z[i])))
\* probability of every shell at x: entry 1 is "none", entry k + 1 the k-th shell
Probs(w, x) == LET v == TLCEval([i \in 1..Len(w) |-> Interp(w[i], x)])
                   s == QSumSeq(v)
               IN  IF s = Q0 THEN [i \in 1..(Len(w) + 1) |-> IF i = 1 THEN Q1 ELSE Q0]
                   ELSE [i \in 1..(Len(w) + 1) |-> IF i = 1 THEN Q0 ELSE QDiv(v[i - 1], s)]
Support(w, x) == LET p == Probs(w, x) IN {i - 2 : i \in {k \in 1..Len(p) : p[k][1] > 0}}
Init == ws \in WinSets /\ zs \in UNION {[1..n -> Zs] : n \in 0..MaxSize} /\ out = <<>>
Batch == /\ Len(out) < Len(zs)
         /\ LET n == MinI(B, Len(zs) - Len(out))
                S(i) == Support(ws, zs[Len(out) + i])
            IN  \E o \in {g \in [1..n -> -1..(Len(ws) - 1)] : \A i \in 1..n : g[i] \in S(i)} : out' = out \o o
         /\ UNCHANGED <<ws, zs>>
Next == Batch
Spec == Init /\ [][Next]_vars
Done == Len(out) = Len(zs)
Placed == \A i \in 1..Len(out) : out[i] \in Support(ws, zs[i])
\* never a shell that is zero there, none exactly outside of all of them
Sound == \A i \in 1..Len(out) : /\ (out[i] >= 0 => Interp(ws[out[i] + 1], zs[i])[1] > 0)
                                /\ (out[i] = -1 <=> \A k \in 1..Len(ws) : Interp(ws[k], zs[i]) = Q0)
Total == \A i \in 1..Len(zs) : QSumSeq(Probs(ws, zs[i])) = Q1
\* a batch draws what single draws would
Whole == Len(out) % B = 0 \/ Done
Emit == Done => CSVWrite("%1$s", <<ToJson([ws |-> ws, zs |-> zs, out |-> out,
                  p |-> [i \in 1..Len(zs) |-> Probs(ws, zs[i])]])>>, IOEnv.OUT)
=============================================================================

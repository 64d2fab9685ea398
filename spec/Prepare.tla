------------------------------ MODULE Prepare ------------------------------
(* Preparing a list of spectra for n fields in the two-point order.         *)
(* "cut": walk through the list once, cutting, emptying and windowing;      *)
(* "mix": effective spectra of weight columns, walking over column pairs    *)
(* and, if both sets of weights are the same, filling the mirrored entry.   *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS Job, MaxN, Lens, LMaxs, NCorrs, Sides, WVals, MaxCols
\* -1 stands for an option that is not given
VARIABLES n, len, opt, k, out
vars == <<n, len, opt, k, out>>
Tri(m) == (m * (m + 1)) \div 2
Field(q) == CHOOSE i \in 0..q : Tri(i) < q /\ q <= Tri(i + 1)
Sep(q) == q - 1 - Tri(Field(q))            \* separation of the pair at position q
Pos(i, j) == Tri(MaxI(i, j)) + AbsI(i - j) + 1
Val(q, l) == ((q * 7 + l * 5) % 11) + 1
At(q, l) == IF l < len[q] THEN Val(q, l) ELSE 0
MaxLen == LET S == {len[q] : q \in 1..Len(len)} \cup {0} IN CHOOSE m \in S : \A o \in S : o <= m

\* ---- cut
Kept(q, o) == LET a == IF o.ncorr >= 0 /\ Sep(q) > o.ncorr THEN 0 ELSE len[q]
                  b == IF o.lmax >= 0 THEN MinI(a, o.lmax + 1) ELSE a
                  w == IF o.nside < 0 THEN b ELSE MinI(b, IF o.lmax >= 0 THEN o.lmax + 1 ELSE 3 * o.nside)
              IN  w
CutStep == /\ Job = "cut" /\ k < Len(len)
           /\ out' = Append(out, [keep |-> Kept(k + 1, opt), win |-> opt.nside >= 0])
           /\ k' = k + 1 /\ UNCHANGED <<n, len, opt>>
CutDone == Job = "cut" /\ k = Len(len)
KeepsList == CutDone => Len(out) = Tri(n)
AutosStay == CutDone => \A i \in 0..(n - 1) : len[Pos(i, i)] > 0 => out[Pos(i, i)].keep > 0
FarEmpty == CutDone => \A i, j \in 0..(n - 1) : (opt.ncorr >= 0 /\ AbsI(i - j) > opt.ncorr) => out[Pos(i, j)].keep = 0
NoOption == (CutDone /\ opt = [lmax |-> -1, ncorr |-> -1, nside |-> -1]) => \A q \in 1..Len(len) : out[q].keep = len[q]
Shorter == \A q \in 1..Len(out) : out[q].keep <= len[q] /\ (opt.lmax >= 0 => out[q].keep <= opt.lmax + 1)

\* ---- mix: opt = [w1, w2, same, lmax]; columns are sequences of n weights
NL == IF opt.lmax >= 0 THEN opt.lmax + 1 ELSE MaxLen
Mix(u, v) == [l \in 1..NL |-> LET g(i) == LET h(j) == u[i] * v[j] * At(Pos(i - 1, j - 1), l - 1) IN SumR(h, 1, n)
                              IN  SumR(g, 1, n)]
W2 == IF opt.same THEN opt.w1 ELSE opt.w2
PairSeq == LET a == Len(opt.w1) b == Len(W2)
               all == [t \in 1..(a * b) |-> <<((t - 1) \div b) + 1, ((t - 1) % b) + 1>>]
           IN  IF opt.same THEN SelectSeq(all, LAMBDA p : p[1] <= p[2]) ELSE all
Visits == IF Job = "mix" THEN Len(PairSeq) ELSE 0
MixStep == /\ Job = "mix" /\ k < Visits
           /\ LET p == PairSeq[k + 1] v == Mix(opt.w1[p[1]], W2[p[2]])
              IN  out' = [out EXCEPT ![p[1]][p[2]] = v,
                                     ![IF opt.same THEN p[2] ELSE p[1]][IF opt.same THEN p[1] ELSE p[2]] = v]
           /\ k' = k + 1 /\ UNCHANGED <<n, len, opt>>
MixDone == Job = "mix" /\ k = Visits
Complete == MixDone => \A a \in 1..Len(opt.w1), b \in 1..Len(W2) : out[a][b] = Mix(opt.w1[a], W2[b])
MirrorOK == (MixDone /\ opt.same) => \A a, b \in 1..Len(opt.w1) : out[a][b] = out[b][a]

Cols(m) == UNION {[1..c -> [1..m -> WVals]] : c \in 0..MaxCols}
Init == /\ n \in 1..MaxN /\ len \in [1..Tri(n) -> Lens] /\ k = 0
        /\ IF Job = "cut"
           THEN opt \in [lmax : LMaxs, ncorr : NCorrs, nside : Sides] /\ out = <<>>
           ELSE /\ opt \in [w1 : Cols(n), w2 : Cols(n), same : BOOLEAN, lmax : LMaxs]
                /\ (opt.same => opt.w2 = <<>>)
                /\ out = [a \in 1..Len(opt.w1) |-> [b \in 1..Len(W2) |-> <<>>]]
Next == CutStep \/ MixStep
Spec == Init /\ [][Next]_vars
Done == CutDone \/ MixDone
Emit == Done => CSVWrite("%1$s", <<ToJson([n |-> n, len |-> len, opt |-> opt, out |-> out])>>, IOEnv.OUT)
=============================================================================

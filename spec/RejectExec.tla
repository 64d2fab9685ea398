----------------------------- MODULE RejectExec -----------------------------
(* Executes rejection sampling exactly on given streams of rational numbers *)
(* and emits what every entry must end up with.  A case is a list of        *)
(* segments processed one after the other; a segment is a list of entries.  *)
(*   kind "disc":  candidate sig * (a + i b), kept if |candidate| <= 1; the *)
(*                 real parts of all missing entries are drawn before the   *)
(*                 imaginary parts                                          *)
(*   kind "range": candidate loc + sig * a, kept if lo <= candidate <= hi   *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k, miss, val, cur, out, rounds
vars == <<c, k, miss, val, cur, out, rounds>>

Seg(i) == Cases[c].seg[i]
S(i) == Cases[c].s[i]
NoQ == <<0, 0>>
NoV == <<NoQ, NoQ>>
QSq(q) == QMul(q, q)
Inside(sg, v) == IF sg.kind = "disc" THEN QLe(QAdd(QSq(v[1]), QSq(v[2])), Q1)
                 ELSE (sg.lo = NoQ \/ QLe(sg.lo, v[1])) /\ (sg.hi = NoQ \/ QLe(v[1], sg.hi))
All(i) == [m \in 1..Len(Seg(i).sig) |-> m]
Init == /\ c \in 1..Len(Cases)
        /\ k = 1 /\ cur = 0 /\ out = <<>> /\ rounds = 0
        /\ miss = All(1) /\ val = [m \in 1..Len(Seg(1).sig) |-> NoV]
\* draw for every missing entry, keep those inside
Cand(sg, q) == \* candidate of the q-th missing entry
    LET i == miss[q] n == Len(miss) IN
    IF sg.kind = "disc" THEN <<QMul(sg.sig[i], S(cur + q)), QMul(sg.sig[i], S(cur + n + q))>>
    ELSE <<QAdd(sg.loc[i], QMul(sg.sig[i], S(cur + q))), Q0>>
Need(sg) == IF sg.kind = "disc" THEN 2 * Len(miss) ELSE Len(miss)
Active == k <= Len(Cases[c].seg)
Round == /\ Active /\ miss # <<>> /\ cur + Need(Seg(k)) <= Len(Cases[c].s)
         /\ val' = [m \in 1..Len(val) |->
              IF \E q \in 1..Len(miss) : miss[q] = m
              THEN Cand(Seg(k), CHOOSE q \in 1..Len(miss) : miss[q] = m) ELSE val[m]]
         /\ miss' = SelectSeq(miss, LAMBDA m : ~Inside(Seg(k), val'[m]))
         /\ cur' = cur + Need(Seg(k))
         /\ rounds' = rounds + 1
         /\ UNCHANGED <<c, k, out>>
Close == /\ Active /\ miss = <<>>
         /\ out' = Append(out, val)
         /\ k' = k + 1
         /\ IF k' <= Len(Cases[c].seg)
            THEN miss' = All(k') /\ val' = [m \in 1..Len(Seg(k').sig) |-> NoV]
            ELSE miss' = <<>> /\ val' = <<>>
         /\ UNCHANGED <<c, cur, rounds>>
Next == Round \/ Close
Spec == Init /\ [][Next]_vars
Kept == \A i \in 1..Len(out) : \A m \in 1..Len(out[i]) : Inside(Seg(i), out[i][m])
Final == [][\A m \in 1..Len(val) : (k' = k /\ \A q \in 1..Len(miss) : miss[q] # m) => val'[m] = val[m]]_vars
Emit == ~Active => CSVWrite("%1$s", <<ToJson([c |-> c, out |-> out, used |-> cur, rounds |-> rounds])>>, IOEnv.OUT)
=============================================================================

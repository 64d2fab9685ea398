---------------------------- MODULE RedrawTrace ----------------------------
(* Photometric redshifts recorded from the library: "start" has shapes and  *)
(* values (rationals) of redshift, error and limits, "draw" the standard    *)
(* normal numbers handed out, "end" the result.  A draw either offers a     *)
(* value to every entry or one to each entry that is out of range.          *)
EXTENDS Broadcast, FiniteSets, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, val, bad0
tvars == <<l, st, val, bad0>>
P == Trace[st]
Dims(e) == BShape(e.zs, e.ss)
N(e) == Prod(Dims(e))
NoQ == <<0, 0>>
ZOf(e, i) == e.z[BFlat(e.zs, i - 1, Dims(e)) + 1]
SOf(e, i) == e.sig[BFlat(e.ss, i - 1, Dims(e)) + 1]
LoOf(e, i) == e.lo[IF Len(e.lo) = 1 THEN 1 ELSE i]
HiOf(e, i) == e.hi[IF Len(e.hi) = 1 THEN 1 ELSE i]
Cand(e, i, s) == QAdd(ZOf(e, i), QMul(QMul(QAdd(Q1, ZOf(e, i)), SOf(e, i)), s))
InR(e, i, v) == IsQ(v) /\ QLe(LoOf(e, i), v) /\ (HiOf(e, i) = NoQ \/ QLe(v, HiOf(e, i)))
Missing == {i \in 1..Len(val) : ~InR(P, i, val[i])}
Report(b) == b # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> b])>>, IOEnv.OUT)
Rank(i) == Cardinality({j \in Missing : j < i}) + 1

TraceInit == l = 1 /\ st = 1 /\ val = <<>> /\ bad0 = FALSE
Start(e) == st' = l /\ val' = [i \in 1..N(e) |-> NoQ] /\ bad0' = FALSE
Draw(e) ==
    LET n == Len(val) m == Cardinality(Missing)
        all == Len(e.s) = n
    IN  /\ Report({x \in {"draw although all values are in range"} : m = 0}
             \cup {x \in {"numbers drawn are neither one per entry nor one per entry out of range"} : ~all /\ Len(e.s) # m})
        /\ IF m = 0 \/ (~all /\ Len(e.s) # m) THEN bad0' = TRUE /\ UNCHANGED val
           ELSE /\ bad0' = bad0
                /\ val' = [i \in 1..n |-> IF i \notin Missing THEN val[i]
                                          ELSE Cand(P, i, IF all THEN e.s[i] ELSE e.s[Rank(i)])]
        /\ UNCHANGED st
End(e) ==
    /\ Report(IF bad0 THEN {} ELSE
          {x \in {"result outside of its limits"} : \E i \in 1..Len(e.out) : i <= Len(val) /\ ~InR(P, i, e.out[i])}
          \cup {x \in {"shape of the result"} : e.shape # Dims(P)}
          \cup {x \in {"value is not the first one in range of its entry"} : e.out # val})
    /\ UNCHANGED <<st, val, bad0>>
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                CASE e.op = "start" -> Start(e)
                  [] e.op = "draw" -> Draw(e)
                  [] e.op = "end" -> End(e)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

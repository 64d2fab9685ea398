---------------------------- MODULE WindowsTrace ----------------------------
(* Windows recorded from the library: every sample of every window, its     *)
(* effective redshift, and the sum of overlapping windows are judged.       *)
(* weight p stands for the polynomial z^0 (none: -1), 1 + z (1), z^2 (2).   *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Wt(p, x) == IF p = 1 THEN QAdd(Q1, x) ELSE IF p = 2 THEN QMul(x, x) ELSE Q1
Shape(kind, u) == IF kind = "cubic" THEN QMul(QMul(u, u), QSub(QI(3), QMul(QI(2), u))) ELSE u
Rise(a, b, x) == QDiv(QSub(x, a), QSub(b, a))
Value(kind, a, m, b, x) == IF kind = "flat" THEN Q1
                           ELSE IF QLe(x, m) THEN Shape(kind, Rise(a, m, x)) ELSE Shape(kind, QSub(Q1, Rise(m, b, x)))
Interp(w, x) == IF QLt(x, w.z[1]) \/ QLt(w.z[Len(w.z)], x) THEN Q0
                ELSE LET i == CHOOSE j \in 1..(Len(w.z) - 1) : QLe(w.z[j], x) /\ QLe(x, w.z[j + 1])
                         t == QDiv(QSub(x, w.z[i]), QSub(w.z[i + 1], w.z[i]))
                     IN  QAdd(QMul(QSub(Q1, t), w.v[i]), QMul(t, w.v[i + 1]))
\* weighted mean redshift with the trapezoidal rule: sum (f_i + f_i+1) (z_i+1 - z_i)
Trap(f, z) == LET g(i) == QMul(QAdd(f[i], f[i + 1]), QSub(z[i + 1], z[i])) IN QSumR(g, 1, Len(z) - 1)
Mean(z, v) == LET zv == [i \in 1..Len(z) |-> QMul(z[i], v[i])] IN QDiv(Trap(zv, z), Trap(v, z))
Number(s) == \A i \in 1..Len(s) : IsQ(s[i])
Incr(z) == \A i \in 1..(Len(z) - 1) : QLt(z[i], z[i + 1])
\* samples on [a, b] are at least the whole number of steps that fit (and both ends)
Enough(z, a, b, dz) == LET c == Cardinality({i \in 1..Len(z) : QLe(a, z[i]) /\ QLe(z[i], b)})
                           q == QDiv(QSub(b, a), dz)
                       IN  c >= MaxI(2, q[1] \div q[2])
Bad(e) ==
  LET W == IF e.kind = "flat" THEN 2 ELSE 3
      G == e.grid
  IN
  IF Len(e.wins) # Len(G) - W + 1 THEN {"number of windows"}
  ELSE IF \E i \in 1..Len(e.wins) : LET w == e.wins[i] IN
             ~Number(w.z) \/ ~Number(w.v) \/ Len(w.z) # Len(w.v) \/ Len(w.z) < 2 THEN {"samples are not the expected numbers"}
  ELSE UNION {LET w == e.wins[i] a == G[i] m == G[i + 1] b == G[i + W - 1] IN
         {c \in {"window spans its nodes"} : w.z[1] # a \/ w.z[Len(w.z)] # b \/ ~Incr(w.z)}
         \cup {c \in {"value of the window"} : \E k \in 1..Len(w.z) : w.v[k] # QMul(Wt(e.p, w.z[k]), Value(e.kind, a, m, b, w.z[k]))}
         \cup {c \in {"sampling of the window"} : IF e.kind = "flat" THEN ~Enough(w.z, a, b, e.dz)
                                                  ELSE ~(Enough(w.z, a, m, e.dz) /\ Enough(w.z, m, b, e.dz))}
         \cup {c \in {"effective redshift"} : IF e.kind = "flat" THEN w.zeff # Mean(w.z, w.v) ELSE w.zeff # m}
         : i \in 1..Len(e.wins)}
       \cup {c \in {"overlapping windows sum to one"} :
               /\ e.kind # "flat" /\ e.p < 0
               /\ \E i \in 1..Len(e.wins) : \E k \in 1..Len(e.wins[i].z) :
                    LET z == e.wins[i].z
                        y == IF k < Len(z) THEN QHalf(QAdd(z[k], z[k + 1])) ELSE z[k]
                    IN  \E x \in {z[k], y} :
                          /\ QLe(G[2], x) /\ QLe(x, G[Len(G) - 1])
                          /\ LET f(j) == Interp(e.wins[j], x) IN QSumR(f, 1, Len(e.wins)) # Q1}
       \cup {c \in {"flat windows are contiguous"} : e.kind = "flat" /\ \E i \in 1..(Len(e.wins) - 1) :
               e.wins[i].z[Len(e.wins[i].z)] # e.wins[i + 1].z[1]}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == IF Trace[l].op = "mean"
                         THEN {c \in {"effective redshift of a window built without one"} : Trace[l].zeff # Mean(Trace[l].z, Trace[l].v)}
                         ELSE Bad(Trace[l])
                IN  b # {} => CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> b])>>, IOEnv.OUT)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

------------------------------ MODULE Windows ------------------------------
(* Window functions on a grid of nodes, built one window after the other    *)
(* and sampled on a uniform grid on each side of the central node; grids    *)
(* with a given step; all over exact rationals.                             *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS Grids,   \* increasing integer node sequences
          Unit,    \* nodes are in units of 1/Unit
          Steps,   \* sampling steps (rationals, same unit)
          Limits   \* for grids with a step: set of [lo, hi, step] integers
VARIABLES job, grid, dz, wins
vars == <<job, grid, dz, wins>>

Rnd(q) == LET fl == q[1] \div q[2] r == q[1] % q[2]
          IN  IF 2 * r < q[2] THEN fl ELSE IF 2 * r > q[2] THEN fl + 1 ELSE IF fl % 2 = 0 THEN fl ELSE fl + 1
Count(a, b) == MaxI(2, Rnd(QDiv(QI(b - a), dz)))
\* points of side [a, b]: Count points with both ends
Side(a, b) == LET c == Count(a, b) IN [i \in 1..c |-> QAdd(QI(a), Norm((b - a) * (i - 1), c - 1))]
Shape(kind, u) == IF kind = "cubic" THEN QMul(QMul(u, u), QSub(QI(3), QMul(QI(2), u))) ELSE u
Rise(a, b, x) == QDiv(QSub(x, QI(a)), QI(b - a))
Value(w, x) == IF w.kind = "flat" THEN Q1
               ELSE IF QLe(x, QI(w.mid)) THEN Shape(w.kind, Rise(w.lo, w.mid, x))
               ELSE Shape(w.kind, QSub(Q1, Rise(w.mid, w.hi, x)))
Points(w) == IF w.kind = "flat" THEN Side(w.lo, w.hi)
             ELSE Side(w.lo, w.mid) \o Tail(Side(w.mid, w.hi))
Width == IF job = "flat" THEN 2 ELSE 3
Make == /\ job \in {"flat", "triangular", "cubic"}
        /\ Len(wins) + Width <= Len(grid)
        /\ LET i == Len(wins) + 1
               w == [kind |-> job, lo |-> grid[i], mid |-> grid[i + 1], hi |-> grid[i + Width - 1]]
           IN  wins' = Append(wins, [w |-> w, z |-> Points(w)])
        /\ UNCHANGED <<job, grid, dz>>
\* number of steps of a grid: smallest n with lo + n step >= hi
Step == /\ job = "grid" /\ wins = <<>>
        /\ wins' = <<(grid.hi - grid.lo + grid.step - 1) \div grid.step>>
        /\ UNCHANGED <<job, grid, dz>>
Init == /\ wins = <<>>
        /\ \/ job \in {"flat", "triangular", "cubic"} /\ grid \in {g \in Grids : Len(g) >= Width} /\ dz \in Steps
           \/ job = "grid" /\ grid \in Limits /\ dz = Q0
Next == Make \/ Step
Spec == Init /\ [][Next]_vars
IsWin == job # "grid"
Done == IF IsWin THEN Len(wins) = Len(grid) - Width + 1 ELSE wins # <<>>

\* linear interpolation of the sampled window
Interp(e, x) == IF QLt(x, e.z[1]) \/ QLt(e.z[Len(e.z)], x) THEN Q0
                ELSE LET i == CHOOSE j \in 1..(Len(e.z) - 1) : QLe(e.z[j], x) /\ QLe(x, e.z[j + 1])
                         t == QDiv(QSub(x, e.z[i]), QSub(e.z[i + 1], e.z[i]))
                     IN  QAdd(QMul(QSub(Q1, t), Value(e.w, e.z[i])), QMul(t, Value(e.w, e.z[i + 1])))
Spans == IsWin => \A i \in 1..Len(wins) : wins[i].z[1] = QI(grid[i]) /\ wins[i].z[Len(wins[i].z)] = QI(grid[i + Width - 1])
Chain == (IsWin /\ job = "flat") => \A i \in 1..(Len(wins) - 1) : wins[i].z[Len(wins[i].z)] = wins[i + 1].z[1]
Edges == (IsWin /\ job # "flat") => \A i \in 1..Len(wins) : LET e == wins[i] IN
           Value(e.w, e.z[1]) = Q0 /\ Value(e.w, e.z[Len(e.z)]) = Q0 /\ Value(e.w, QI(e.w.mid)) = Q1
\* both windows of an overlap are sampled at the same points, and interpolate to one in between as well
Unity == (Done /\ IsWin /\ job # "flat") =>
           \A i \in 1..(Len(wins) - 1) :
              LET sd == Side(grid[i + 1], grid[i + 2])
                  xs == {sd[k] : k \in 1..Len(sd)} \cup {QAdd(sd[k], QMul(<<1, 3>>, QSub(sd[k + 1], sd[k]))) : k \in 1..(Len(sd) - 1)}
              IN  \A x \in xs : QAdd(Interp(wins[i], x), Interp(wins[i + 1], x)) = Q1
GridEnds == (Done /\ ~IsWin) => LET e == grid.lo + wins[1] * grid.step IN e >= grid.hi /\ e < grid.hi + grid.step
Emit == Done => CSVWrite("%1$s", <<ToJson([job |-> job, grid |-> grid, dz |-> dz,
            n |-> IF IsWin THEN Len(wins) ELSE wins[1]])>>, IOEnv.OUT)
=============================================================================

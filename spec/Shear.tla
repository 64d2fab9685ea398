------------------------------- MODULE Shear -------------------------------
(* Lensed ellipticities of a catalogue: the catalogue is worked off in      *)
(* blocks; every galaxy reads the maps at its own pixel.  Complex numbers   *)
(* are pairs of rationals.                                                  *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS Block,    \* galaxies per block
          MaxSize,  \* largest catalogue
          Es,       \* intrinsic ellipticities (pairs of rationals)
          Kappas,   \* convergence values
          Gammas    \* shear values (pairs of rationals)

CAdd(a, b) == <<QAdd(a[1], b[1]), QAdd(a[2], b[2])>>
CMul(a, b) == <<QSub(QMul(a[1], b[1]), QMul(a[2], b[2])), QAdd(QMul(a[1], b[2]), QMul(a[2], b[1]))>>
CConj(a) == <<a[1], QNeg(a[2])>>
CNeg(a) == <<QNeg(a[1]), QNeg(a[2])>>
CAbs2(a) == QAdd(QMul(a[1], a[1]), QMul(a[2], a[2]))
CScale(q, a) == <<QMul(q, a[1]), QMul(q, a[2])>>
CDiv(a, b) == CScale(QInv(CAbs2(b)), CMul(a, CConj(b)))
COne == <<Q1, Q0>>
Reduced(k, g) == CScale(QInv(QSub(Q1, k)), g)
Lensed(e, g) == CDiv(CAdd(e, g), CAdd(COne, CMul(CConj(g), e)))
Observed(red, e, k, g) == IF red THEN Lensed(e, Reduced(k, g)) ELSE CAdd(e, g)

VARIABLES mode, size, i, hits, c
vars == <<mode, size, i, hits, c>>
Init == \/ /\ mode = "blocks" /\ size \in 0..MaxSize /\ i = 0 /\ hits = [j \in 1..size |-> 0] /\ c = <<>>
        \/ /\ mode = "value" /\ size = 1 /\ i = 0 /\ hits = <<0>>
           /\ c \in [red : BOOLEAN, e : Es, k : Kappas, g : Gammas]
\* one block: galaxies i+1 .. i+Block as far as there are any
Step == /\ i < size
        /\ hits' = [j \in 1..size |-> IF i < j /\ j <= i + Block THEN hits[j] + 1 ELSE hits[j]]
        /\ i' = i + Block
        /\ UNCHANGED <<mode, size, c>>
Next == Step
Spec == Init /\ [][Next]_vars
Done == i >= size
EachOnce == /\ \A j \in 1..size : hits[j] <= 1
            /\ Done => \A j \in 1..size : hits[j] = 1
Value == mode = "value"
\* without shear nothing changes; opposite shear undoes; the disk maps to itself
\* (exact arithmetic of this identity stays within 32 bits only for these)
Small(x) == x[1][2] * x[2][2] <= 8
Identity == (Value /\ c.g = <<Q0, Q0>>) => Observed(c.red, c.e, c.k, c.g) = c.e
Undo == (Value /\ c.red) => LET g == Reduced(c.k, c.g) IN
          (Small(c.e) /\ Small(g) /\ CAbs2(g) # Q1) => Lensed(Lensed(c.e, g), CNeg(g)) = c.e
Disk == (Value /\ c.red) => LET g == Reduced(c.k, c.g) IN
          (Small(c.e) /\ Small(g) /\ QLt(CAbs2(g), Q1) /\ QLe(CAbs2(c.e), Q1)) => QLe(CAbs2(Lensed(c.e, g)), Q1)
Emit == (Value /\ i = 0) => CSVWrite("%1$s", <<ToJson([c |-> c, out |-> Observed(c.red, c.e, c.k, c.g)])>>, IOEnv.OUT)
EmitSize == (~Value /\ i = 0) => CSVWrite("%1$s", <<ToJson([size |-> size, blocks |-> (size + Block - 1) \div Block])>>, IOEnv.OUT)
=============================================================================

------------------------------ MODULE Resample ------------------------------
(* Shapes rescaled so that applying shear restores their variance.          *)
(* Moduli r and the factor F are chosen; the variance that makes F the      *)
(* right factor follows:                                                    *)
(*   shear:          v = <r^2> (1 - F^2)                                    *)
(*   reduced shear:  <r^2> = v + (1 - 2v) F^2 <r^2> + v F^4 <r^4>           *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS M,       \* number of shapes
          Rs, RD,  \* moduli as numerators over RD
          Fs, FD
VARIABLES r, F
vars == <<r, F>>
Init == /\ r \in [1..M -> {Norm(a, RD) : a \in Rs}] /\ F \in {Norm(a, FD) : a \in Fs}
        /\ \E i \in 1..M : r[i] # Q0
        /\ \A i \in 1..(M - 1) : i % 2 = 1 => QLe(r[i + 1], r[i])
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
QSq(q) == QMul(q, q)
Mean(f(_)) == QMul(<<1, M>>, QSumR(f, 1, M))
E2 == LET f(i) == QSq(r[i]) IN Mean(f)
E4 == LET f(i) == QSq(QSq(r[i])) IN Mean(f)
VGamma == QMul(E2, QSub(Q1, QSq(F)))
Den == QAdd(QSub(Q1, QMul(QI(2), QMul(QSq(F), E2))), QMul(QSq(QSq(F)), E4))
VG == QDiv(QMul(E2, QSub(Q1, QSq(F))), Den)
\* the variance needed never exceeds that of the shapes, and vanishes for F = 1
Sane == /\ QLe(VGamma, E2) /\ (F = Q1 => VGamma = Q0 /\ VG = Q0)
        /\ QLt(Q0, Den)
\* the equation has one root in [0, 1] if v < 1/2: the polynomial increases there
Realised == LET F2 == QSq(F)
            IN  QAdd(VG, QAdd(QMul(QSub(Q1, QMul(QI(2), VG)), QMul(F2, E2)), QMul(VG, QMul(QSq(F2), E4)))) = E2
Emit == CSVWrite("%1$s", <<ToJson([r |-> r, F |-> F, vgamma |-> VGamma, vg |-> VG])>>, IOEnv.OUT)
=============================================================================

---------------------------- MODULE Populations ----------------------------
(* Expected number of points of every population and pixel: density,        *)
(* contrast, bias and visibility broadcast against each other; populations  *)
(* are visited one after the other in index order (C order).                *)
EXTENDS Broadcast, FiniteSets, Json, CSV, IOUtils

CONSTANTS Shapes,   \* leading shapes to combine
          P,        \* number of different pixels
          Models    \* subset of {"none", "linear", "loglinear"}

\* distinct values for the entries of each input
Ngal(i) == <<i + 1, 2>>
Delta(r, p) == <<((r * 3 + p * 5) % 7) - 2, 3>>
Bias(i) == QI((i % 3) + 1)
Vis(r, p) == <<(r * 2 + p) % 3, 2>>

VARIABLES cfg, k, lam      \* configuration, next population, expected counts so far
vars == <<cfg, k, lam>>

Shp == {s \in Shapes \X Shapes \X Shapes \X Shapes :
          /\ Compatible(s[1], s[2]) /\ Compatible(BShape(s[1], s[2]), s[3])
          /\ Compatible(BShape(BShape(s[1], s[2]), s[3]), s[4])}
Dims(c) == BShape(BShape(BShape(c.s[1], c.s[2]), c.s[3]), c.s[4])

RECURSIVE QPow(_, _)
QPow(q, e) == IF e = 0 THEN Q1 ELSE QMul(q, QPow(q, e - 1))
Contrast(c, idx, p) ==
    LET d == Delta(BAt(c.s[2], idx), p) b == Bias(BAt(c.s[3], idx))
    IN  CASE c.model = "none" -> Norm(d[1], d[2])
          [] c.model = "linear" -> QMul(b, Norm(d[1], d[2]))
          [] c.model = "loglinear" -> QSub(QPow(QAdd(Q1, Norm(d[1], d[2])), b[1]), Q1)
Mean(c, idx) == LET f(p) == Contrast(c, idx, p) IN QMul(<<1, P>>, QSumR(f, 0, P - 1))
Expect(c, idx, p) ==
    LET d == IF c.mono THEN QSub(Contrast(c, idx, p), Mean(c, idx)) ELSE Contrast(c, idx, p)
        n == Ngal(BAt(c.s[1], idx)) v == Vis(BAt(c.s[4], idx), p)
        x == QMul(QMul(Norm(n[1], n[2]), QAdd(Q1, d)), IF c.vis THEN Norm(v[1], v[2]) ELSE Q1)
    IN  QMax(Q0, x)

Init == /\ cfg \in [s : Shp, model : Models, mono : BOOLEAN, vis : BOOLEAN]
        /\ cfg.model = "none" => cfg.s[3] = <<>>
        /\ cfg.vis = FALSE => cfg.s[4] = <<>>
        /\ k = 0 /\ lam = <<>>
Next == /\ k < Prod(Dims(cfg))
        /\ lam' = Append(lam, [p \in 1..P |-> Expect(cfg, Unravel(k, Dims(cfg)), p - 1)])
        /\ k' = k + 1 /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars

\* the design: never negative, and the mean over the sphere is the density
\* where the contrast has its mean removed and nothing was clipped or masked
NonNeg == \A i \in 1..Len(lam) : \A p \in 1..P : lam[i][p][1] >= 0
MeanDensity == \A i \in 1..Len(lam) :
    LET idx == Unravel(i - 1, Dims(cfg)) f(p) == lam[i][p + 1]
        g == Ngal(BAt(cfg.s[1], idx))
    IN  (cfg.mono /\ ~cfg.vis /\ \A p \in 1..P : lam[i][p][1] > 0)
           => QSumR(f, 0, P - 1) = QMul(QI(P), Norm(g[1], g[2]))
Vals(c, f(_), j) == [i \in 1..Prod(c.s[j]) |-> f(i - 1)]
Maps(c, f(_, _), j) == [i \in 1..Prod(c.s[j]) |-> [p \in 1..P |-> f(i - 1, p - 1)]]
Emit == (k = Prod(Dims(cfg))) => CSVWrite("%1$s", <<ToJson(
    [s |-> cfg.s, model |-> cfg.model, mono |-> cfg.mono, vis |-> cfg.vis, dims |-> Dims(cfg), lam |-> lam,
     ngal |-> Vals(cfg, Ngal, 1), delta |-> Maps(cfg, Delta, 2),
     bias |-> Vals(cfg, Bias, 3), visv |-> Maps(cfg, Vis, 4)])>>, IOEnv.OUT)
=============================================================================

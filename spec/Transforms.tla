----------------------------- MODULE Transforms -----------------------------
(* Transformations of Gaussian fields, and how a pair of them is resolved:  *)
(* the first is asked about the second, then the second about the first,    *)
(* and if neither knows the pair is refused.  Correlations are derived from *)
(* the moments of a bivariate Gaussian and compared with closed forms.      *)
(* A transformation is [k, lam, a]; kinds:                                  *)
(*   "N" X, "L" lam (exp(X - var / 2) - 1), "S" lam ((X - a)^2 - 1),        *)
(*   "F" a foreign one that answers for N only, "U" one that answers never. *)
(* Correlations x are rational except between two "L", where e = exp(x) is. *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS Ts,   \* set of transformations
          Xs,   \* set of Gaussian correlations (or of exponentials between two "L")
          H     \* step of the difference quotient
VARIABLES t1, t2, x, pc, who, val
vars == <<t1, t2, x, pc, who, val>>
\* what a transformation answers when asked about another one
Knows(s, o) == CASE s.k = "N" -> o.k = "N"
                 [] s.k = "L" -> o.k \in {"L", "N"}
                 [] s.k = "S" -> o.k = "S"
                 [] s.k = "F" -> o.k \in {"N", "F"}
                 [] OTHER -> FALSE
\* closed forms as coded by the documentation of each kind
Corr(s, o, y) == CASE s.k = "N" -> y
                   [] s.k = "L" /\ o.k = "N" -> QMul(s.lam, y)
                   [] s.k = "L" /\ o.k = "L" -> QMul(QMul(s.lam, o.lam), QSub(y, Q1))
                   [] s.k = "S" -> QMul(QMul(QI(2), QMul(s.lam, o.lam)), QMul(y, QAdd(y, QMul(QI(2), QMul(s.a, o.a)))))
                   [] s.k = "F" -> QMul(s.lam, QMul(y, IF o.k = "F" THEN o.lam ELSE Q1))
DCorr(s, o, y) == CASE s.k = "N" -> Q1
                    [] s.k = "L" /\ o.k = "N" -> s.lam
                    [] s.k = "L" /\ o.k = "L" -> QMul(QMul(s.lam, o.lam), y)
                    [] s.k = "S" -> QMul(QMul(QI(4), QMul(s.lam, o.lam)), QAdd(y, QMul(s.a, o.a)))
                    [] s.k = "F" -> QMul(s.lam, IF o.k = "F" THEN o.lam ELSE Q1)
\* moments of a bivariate Gaussian, zero means, variances v and w, covariance y (Isserlis)
EXX(v) == v
EXXYY(v, w, y) == QAdd(QMul(v, w), QMul(QI(2), QMul(y, y)))
Sq(q) == QMul(q, q)
\* covariance of lam ((X - a)^2 - 1) and mu ((Y - b)^2 - 1), var X = 1 - a^2
CovS(s, o, y) ==
  LET v == QSub(Q1, Sq(s.a)) w == QSub(Q1, Sq(o.a))
      \* E (X - a)^2 (Y - b)^2: odd moments vanish
      m == QAdd(QAdd(EXXYY(v, w, y), QMul(Sq(o.a), v)), QAdd(QMul(Sq(s.a), w), QAdd(QMul(QI(4), QMul(QMul(s.a, o.a), y)), QMul(Sq(s.a), Sq(o.a)))))
      ex == QAdd(v, Sq(s.a)) ey == QAdd(w, Sq(o.a))
  IN  QMul(QMul(s.lam, o.lam), QSub(m, QMul(ex, ey)))
\* exp(X - v/2): E = 1, E of the product = exp(y); E X exp(Y - w/2) = y
CovL(s, o, e) == QMul(QMul(s.lam, o.lam), QSub(e, Q1))
Both(s, o, k) == s.k = k /\ o.k = k
Init == /\ t1 \in Ts /\ t2 \in Ts /\ x \in Xs /\ pc = "first" /\ who = 0 /\ val = <<>>
        /\ Both(t1, t2, "L") => QLt(Q0, x)
        /\ Both(t1, t2, "S") => QLe(QNeg(QMul(t1.a, t2.a)), x)
Answer(s, o) == val' = [corr |-> Corr(s, o, x), dcorr |-> DCorr(s, o, x)]
First == /\ pc = "first"
         /\ IF Knows(t1, t2) THEN Answer(t1, t2) /\ who' = 1 /\ pc' = "end" ELSE pc' = "second" /\ UNCHANGED <<who, val>>
         /\ UNCHANGED <<t1, t2, x>>
Second == /\ pc = "second"
          /\ IF Knows(t2, t1) THEN Answer(t2, t1) /\ who' = 2 ELSE UNCHANGED <<who, val>>
          /\ pc' = "end" /\ UNCHANGED <<t1, t2, x>>
Next == First \/ Second
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "end"
F == IF who = 1 THEN t1 ELSE t2
S == IF who = 1 THEN t2 ELSE t1
Known == Done /\ who > 0
Resolved == Done => (who > 0 <=> Knows(t1, t2) \/ Knows(t2, t1))
Swapped == (Known /\ Knows(S, F)) => /\ Corr(S, F, x) = val.corr /\ DCorr(S, F, x) = val.dcorr
ZeroIsZero == Known => Corr(F, S, IF Both(F, S, "L") THEN Q1 ELSE Q0) = Q0
Moments == Known => CASE Both(F, S, "S") -> val.corr = CovS(F, S, x)
                      [] Both(F, S, "L") -> val.corr = CovL(F, S, x)
                      [] OTHER -> TRUE
\* exact for polynomials of degree two: difference = step times mean slope; between two "L", e is the variable and d/dx = e d/de
Slope == Known => IF Both(F, S, "L") THEN val.dcorr = QMul(x, QDiv(QSub(Corr(F, S, QAdd(x, H)), val.corr), H))
                  ELSE QSub(Corr(F, S, QAdd(x, H)), val.corr) = QMul(H, QHalf(QAdd(val.dcorr, DCorr(F, S, QAdd(x, H)))))
\* one-to-one where the derivative does not vanish: corr determines x
OneToOne == Known => \A y \in Xs :
    ((Both(F, S, "L") => QLt(Q0, y)) /\ (Both(F, S, "S") => QLe(QNeg(QMul(F.a, S.a)), y)) /\ Corr(F, S, y) = val.corr) => y = x
Ends == <>Done
Emit == Done => CSVWrite("%1$s", <<ToJson([t1 |-> t1, t2 |-> t2, x |-> x, who |-> who,
           val |-> IF who > 0 THEN val ELSE [corr |-> Q0, dcorr |-> Q0]])>>, IOEnv.OUT)
=============================================================================

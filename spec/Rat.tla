-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic for TLC.  A rational is <<num, den>> with      *)
(* den > 0 and gcd(num, den) = 1; equality of values is equality of tuples. *)
(* <<0, 0>> marks "not a number the specification can represent": it is     *)
(* equal to no rational, so a comparison with it fails instead of erring.   *)
EXTENDS Integers, Sequences, TLC

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
AbsI(a) == IF a < 0 THEN -a ELSE a
SignI(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

Norm(n, d) == LET g == GCD(AbsI(n), AbsI(d))
                  s == IF d < 0 THEN -1 ELSE 1
              IN  <<(s * n) \div g, (s * d) \div g>>
QI(n) == <<n, 1>>
Q0 == <<0, 1>>
Q1 == <<1, 1>>
IsQ(q) == q[2] > 0

QNeg(a) == <<-a[1], a[2]>>
\* the common factor is divided out first to stay within 32 bits
QAdd(a, b) == LET g == GCD(a[2], b[2])
              IN  Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == LET g == GCD(AbsI(a[1]), b[2])
                  h == GCD(AbsI(b[1]), a[2])
                  gg == IF g = 0 THEN 1 ELSE g
                  hh == IF h = 0 THEN 1 ELSE h
              IN  Norm((a[1] \div gg) * (b[1] \div hh), (a[2] \div hh) * (b[2] \div gg))
QInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
QDiv(a, b) == QMul(a, QInv(b))
QLt(a, b) == a[1] * b[2] < b[1] * a[2]
QLe(a, b) == a[1] * b[2] <= b[1] * a[2]
QMin(a, b) == IF QLe(a, b) THEN a ELSE b
QMax(a, b) == IF QLe(a, b) THEN b ELSE a
QAbs(a) == <<AbsI(a[1]), a[2]>>
QHalf(a) == QMul(a, <<1, 2>>)

RECURSIVE QSumSeq(_)
QSumSeq(s) == IF s = <<>> THEN Q0 ELSE QAdd(Head(s), QSumSeq(Tail(s)))
\* Sum of f(i) for i in lo..hi
RECURSIVE QSumR(_, _, _)
QSumR(f(_), lo, hi) == IF lo > hi THEN Q0 ELSE QAdd(f(lo), QSumR(f, lo + 1, hi))
RECURSIVE SumR(_, _, _)
SumR(f(_), lo, hi) == IF lo > hi THEN 0 ELSE f(lo) + SumR(f, lo + 1, hi)
QDot(a, b) == LET f(i) == QMul(a[i], b[i]) IN QSumR(f, 1, Len(a))
\* integer square root (exact or -1)
ISqrtFloor(n) == CHOOSE k \in 0..n : k * k <= n /\ (k + 1) * (k + 1) > n
=============================================================================

-------------------------------- MODULE Arr --------------------------------
(* Arrays of rationals: [sh |-> shape, v |-> values in row-major order].     *)
EXTENDS Rat, FiniteSets
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* indices count from zero; index tuple of flat position p
RECURSIVE Unflat(_, _)
Unflat(s, p) == IF s = <<>> THEN <<>> ELSE <<p \div Prod(Tail(s))>> \o Unflat(Tail(s), p % Prod(Tail(s)))
RECURSIVE Flat(_, _)
Flat(s, i) == IF s = <<>> THEN 0 ELSE Head(i) * Prod(Tail(s)) + Flat(Tail(s), Tail(i))
At(a, i) == a.v[Flat(a.sh, i) + 1]
Make(sh, f(_)) == [sh |-> sh, v |-> [p \in 1..Prod(sh) |-> f(Unflat(sh, p - 1))]]
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Bad == <<-1>>
\* the usual rules: aligned at the right, ones stretch
Dim(s, k, n) == IF k <= n - Len(s) THEN 1 ELSE s[k - (n - Len(s))]
Merge2(s, t) == IF s = Bad \/ t = Bad THEN Bad ELSE
                LET n == MaxI(Len(s), Len(t))
                    d == [k \in 1..n |-> IF Dim(s, k, n) = 1 THEN Dim(t, k, n) ELSE Dim(s, k, n)]
                IN  IF \A k \in 1..n : Dim(s, k, n) \in {1, d[k]} /\ Dim(t, k, n) \in {1, d[k]} THEN d ELSE Bad
RECURSIVE Merge(_)
Merge(l) == IF l = <<>> THEN <<>> ELSE IF Len(l) = 1 THEN l[1] ELSE Merge(<<Merge2(l[1], l[2])>> \o SubSeq(l, 3, Len(l)))
\* index into an array of shape s for index i of the broadcast array
Pick(s, i) == [k \in 1..Len(s) |-> IF s[k] = 1 THEN 0 ELSE i[k + Len(i) - Len(s)]]
\* first axis common, all others by the usual rules
FirstShape(shs) == LET nz == SelectSeq(shs, LAMBDA s : s # <<>>)
                       h == Merge([k \in 1..Len(nz) |-> <<nz[k][1]>>])
                       t == Merge([k \in 1..Len(nz) |-> Tail(nz[k])])
                   IN  IF h = Bad \/ t = Bad THEN Bad ELSE h \o t
FirstAt(a, i) == IF a.sh = <<>> THEN a.v[1]
                 ELSE At(a, (IF a.sh[1] = 1 THEN <<0>> ELSE <<i[1]>>) \o Pick(Tail(a.sh), Tail(i)))
First(l) == LET sh == FirstShape([k \in 1..Len(l) |-> l[k].sh])
            IN  IF sh = Bad THEN <<>> ELSE [k \in 1..Len(l) |-> Make(sh, LAMBDA i : FirstAt(l[k], i))]
\* all but the last n[k] axes by the usual rules
LeadShape(shs, n) == Merge([k \in 1..Len(shs) |-> SubSeq(shs[k], 1, Len(shs[k]) - n[k])])
Lead(l, n) == LET d == LeadShape([k \in 1..Len(l) |-> l[k].sh], n)
                  T(k) == Drop(l[k].sh, Len(l[k].sh) - n[k])
                  L(k) == SubSeq(l[k].sh, 1, Len(l[k].sh) - n[k])
              IN  IF d = Bad THEN <<>>
                  ELSE [k \in 1..Len(l) |-> Make(d \o T(k), LAMBDA i : At(l[k], Pick(L(k), SubSeq(i, 1, Len(d))) \o Drop(i, Len(d))))]
\* density of each shell over the total of all shells, times the bias
Weights(dens, bias) ==
    LET b == IF bias = <<>> THEN <<dens>> ELSE First(<<dens, bias[1]>>)
        d == b[1]
        tot(i) == QSumR(LAMBDA k : At(d, <<k - 1>> \o Tail(i)), 1, d.sh[1])
    IN  Make(d.sh, LAMBDA i : LET w == QDiv(At(d, i), tot(i)) IN IF bias = <<>> THEN w ELSE QMul(w, At(b[2], i)))
---------------------------------------------------------------------------
\* linear interpolation of the points (x[k], y[k]), x increasing
RECURSIVE Seg(_, _, _)
Seg(x, t, k) == IF k + 1 >= Len(x) \/ QLe(t, x[k + 1]) THEN k ELSE Seg(x, t, k + 1)
Lin(x, y, t, left, right) ==
    IF QLt(t, x[1]) THEN left ELSE IF QLt(x[Len(x)], t) THEN right
    ELSE IF Len(x) = 1 THEN y[1]
    ELSE LET k == Seg(x, t, 1)
             u == QDiv(QSub(t, x[k]), QSub(x[k + 1], x[k]))
         IN  QAdd(y[k], QMul(u, QSub(y[k + 1], y[k])))
Interp(x, y, t) == Lin(x, y, t, y[1], y[Len(y)])
\* t modulo a positive period
QMod(t, p) == LET q == QDiv(t, p) fl == q[1] \div q[2] IN QSub(t, QMul(QI(fl), p))
SortedBy(x, p) == LET m == [k \in 1..Len(x) |-> QMod(x[k], p)]
                  IN  CHOOSE s \in [1..Len(x) -> 1..Len(x)] : \A i, j \in 1..Len(x) : i < j => QLt(m[s[i]], m[s[j]])
Wrap(x, y, t, p) == LET s == SortedBy(x, p) n == Len(x)
                        m == [k \in 1..n |-> QMod(x[s[k]], p)]
                        xx == <<QSub(m[n], p)>> \o m \o <<QAdd(m[1], p)>>
                        yy == <<y[s[n]]>> \o [k \in 1..n |-> y[s[k]]] \o <<y[s[1]]>>
                    IN  Interp(xx, yy, QMod(t, p))
\* interpolation along axis ax (from 1) of an array: the axis is replaced by the axes of the new points
Slice(a, ax, i) == [k \in 1..a.sh[ax] |-> At(a, [j \in 1..Len(a.sh) |-> IF j = ax THEN k - 1 ELSE i[j]])]
Along(a, ax, xs, f(_, _)) ==
    LET m == Len(xs.sh)
        sh == SubSeq(a.sh, 1, ax - 1) \o xs.sh \o Drop(a.sh, ax)
        src(i) == SubSeq(i, 1, ax - 1) \o <<0>> \o Drop(i, ax - 1 + m)
    IN  Make(sh, LAMBDA i : f(Slice(a, ax, src(i)), At(xs, SubSeq(i, ax, ax + m - 1))))
\* trapezoids
Trap(x, y) == QSumR(LAMBDA k : QMul(QSub(x[k + 1], x[k]), QHalf(QAdd(y[k], y[k + 1]))), 1, Len(x) - 1)
RECURSIVE CumFrom(_, _, _)
CumFrom(x, y, acc) == IF Len(acc) >= Len(x) THEN acc
                      ELSE LET k == Len(acc) IN CumFrom(x, y, Append(acc, QAdd(acc[k], QMul(QSub(x[k + 1], x[k]), QHalf(QAdd(y[k], y[k + 1]))))))
Cum(x, y) == CumFrom(x, y, <<Q0>>)
RECURSIVE Ins(_, _)
Ins(s, q) == IF s = <<>> THEN <<q>> ELSE IF q = s[1] THEN s ELSE IF QLt(q, s[1]) THEN <<q>> \o s ELSE <<s[1]>> \o Ins(Tail(s), q)
RECURSIVE InsAll(_, _)
InsAll(s, l) == IF l = <<>> THEN s ELSE InsAll(Ins(s, Head(l)), Tail(l))
RECURSIVE CatAll(_)
CatAll(l) == IF l = <<>> THEN <<>> ELSE l[1].x \o CatAll(Tail(l))
RECURSIVE QMaxL(_)
QMaxL(l) == IF Len(l) = 1 THEN l[1] ELSE QMax(l[1], QMaxL(Tail(l)))
RECURSIVE QMinL(_)
QMinL(l) == IF Len(l) = 1 THEN l[1] ELSE QMin(l[1], QMinL(Tail(l)))
\* all points of all functions inside of the range common to all
Common(l) == LET lo == QMaxL([k \in 1..Len(l) |-> l[k].x[1]])
                 hi == QMinL([k \in 1..Len(l) |-> Last(l[k].x)])
             IN  SelectSeq(InsAll(<<>>, CatAll(l)), LAMBDA q : QLe(lo, q) /\ QLe(q, hi))
RECURSIVE ProdAt(_, _)
ProdAt(l, t) == IF l = <<>> THEN Q1 ELSE QMul(Interp(l[1].x, l[1].y, t), ProdAt(Tail(l), t))
Product(l) == LET g == Common(l) IN Trap(g, [k \in 1..Len(g) |-> ProdAt(l, g[k])])
EffBias(z, b, x, w) == QDiv(Product(<<[x |-> z, y |-> b], [x |-> x, y |-> w]>>), Trap(x, w))
\* (1 + d)^b - 1 for an integer b
RECURSIVE QPow(_, _)
QPow(a, n) == IF n = 0 THEN Q1 ELSE IF n < 0 THEN QInv(QPow(a, -n)) ELSE QMul(a, QPow(a, n - 1))
LogLin(d, b) == QSub(QPow(QAdd(Q1, d), b), Q1)
\* multipole of coefficient p of the list 00, 10, 11, 20, 21, 22, ...
Ell(p) == CHOOSE l \in 0..p : (l * (l + 1)) \div 2 < p /\ p <= ((l + 1) * (l + 2)) \div 2
=============================================================================

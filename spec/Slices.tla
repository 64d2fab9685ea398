------------------------------- MODULE Slices -------------------------------
(* Interpolation of an array of functions along one of its axes, cumulative *)
(* integrals and weights of arrays, bias models and multiplication of       *)
(* harmonic coefficients: a question about one array, answered entry by     *)
(* entry.                                                                    *)
EXTENDS Arr, Json, CSV, IOUtils
CONSTANTS Shapes, XShapes, Grids,  \* sequences of rationals by length: Grids[n] is a set
          Points, Pads, Periods, Deltas, Biases, Lmax
VARIABLES q, ans
vars == <<q, ans>>
Vals(sh, s) == [sh |-> sh, v |-> [p \in 1..Prod(sh) |-> QI(((s * p * p + 5 * p) % 17) - 3)]]
Pos(sh, s) == [sh |-> sh, v |-> [p \in 1..Prod(sh) |-> QI(((s * p * p + 5 * p) % 5) + 1)]]
Xs(sh, o) == [sh |-> sh, v |-> [p \in 1..Prod(sh) |-> Points[((o + 3 * p) % Len(Points)) + 1]]]
Init == q = [ask |-> ""] /\ ans = <<>>
Ready == q.ask = ""
AskInterp == Ready /\ \E sh \in Shapes : \E ax \in 1..Len(sh) : \E x \in Grids[sh[ax]], xsh \in XShapes, o \in 0..2, pad \in Pads :
    LET a == Vals(sh, o) t == Xs(xsh, o) IN
      /\ q' = [ask |-> "interp", a |-> a, ax |-> ax, x |-> x, t |-> t, pad |-> pad]
      /\ ans' = Along(a, ax, t, LAMBDA y, s : Lin(x, y, s, IF pad[1] = <<>> THEN y[1] ELSE pad[1], IF pad[2] = <<>> THEN y[Len(y)] ELSE pad[2]))
AskPeriod == Ready /\ \E sh \in Shapes : \E ax \in 1..Len(sh) : \E x \in Grids[sh[ax]], xsh \in XShapes, p \in Periods :
    LET a == Vals(sh, 1) t == Xs(xsh, 1) IN
      /\ \A i, j \in 1..Len(x) : i # j => QMod(x[i], p) # QMod(x[j], p)
      /\ q' = [ask |-> "period", a |-> a, ax |-> ax, x |-> x, t |-> t, pad |-> p]
      /\ ans' = Along(a, ax, t, LAMBDA y, s : Wrap(x, y, s, p))
AskCum == Ready /\ \E sh \in Shapes : sh # <<>> /\ \E x \in Grids[Last(sh)] :
    LET a == Vals(sh, 1) IN
      /\ q' = [ask |-> "cum", a |-> a, x |-> x]
      /\ ans' = Make(sh, LAMBDA i : Cum(x, Slice(a, Len(sh), i))[Last(i) + 1])
AskWeights == Ready /\ \E sh \in Shapes : sh # <<>> /\
    \/ q' = [ask |-> "weights", a |-> Pos(sh, 2), b |-> <<>>] /\ ans' = Weights(Pos(sh, 2), <<>>)
    \/ \E bs \in Shapes : LET b == Vals(bs, 3) IN
         /\ FirstShape(<<sh, bs>>) # Bad
         /\ q' = [ask |-> "weights", a |-> Pos(sh, 2), b |-> <<b>>] /\ ans' = Weights(Pos(sh, 2), <<b>>)
AskModel == Ready /\ \E sh \in Shapes, bs \in Shapes, o \in 0..1 :
    LET d == [sh |-> sh, v |-> [p \in 1..Prod(sh) |-> Deltas[((o + p) % Len(Deltas)) + 1]]]
        b == [sh |-> bs, v |-> [p \in 1..Prod(bs) |-> Biases[((o + 2 * p) % Len(Biases)) + 1]]]
        m == Merge(<<sh, bs>>)
    IN  /\ m # Bad
        /\ q' = [ask |-> "model", a |-> d, b |-> b]
        /\ ans' = [lin |-> Make(m, LAMBDA i : QMul(QI(At(b, Pick(bs, i))), At(d, Pick(sh, i)))),
                   log |-> Make(m, LAMBDA i : LogLin(At(d, Pick(sh, i)), At(b, Pick(bs, i))))]
AskAlm == Ready /\ \E l \in 0..Lmax : LET n == ((l + 1) * (l + 2)) \div 2 IN
    /\ q' = [ask |-> "alm", l |-> l, bl |-> [k \in 1..(l + 1) |-> k * k - 3], alm |-> [p \in 1..n |-> 7 * p - 20]]
    /\ ans' = [p \in 1..n |-> (7 * p - 20) * LET k == Ell(p) + 1 IN k * k - 3]
Next == AskInterp \/ AskPeriod \/ AskCum \/ AskWeights \/ AskModel \/ AskAlm
Spec == Init /\ [][Next]_vars
Is(a) == q.ask = a
\* interpolation at the points themselves gives the values back
Nodes == q.ask \in {"interp", "period"} =>
    LET t == [sh |-> <<q.a.sh[q.ax]>>, v |-> q.x] IN
      Along(q.a, q.ax, t, LAMBDA y, s : IF q.ask = "interp" THEN Interp(q.x, y, s) ELSE Wrap(q.x, y, s, q.pad)) = q.a
\* one period further is the same
Shift == Is("period") => \A p \in 1..Len(q.t.v) : \A y \in {Slice(q.a, q.ax, [j \in 1..Len(q.a.sh) |-> 0])} :
    Wrap(q.x, y, QAdd(q.t.v[p], q.pad), q.pad) = Wrap(q.x, y, q.t.v[p], q.pad)
\* weights without bias add up to one
SumOne == (Is("weights") /\ q.b = <<>>) => \A i \in 0..(Prod(Tail(ans.sh)) - 1) :
    QSumR(LAMBDA k : At(ans, <<k - 1>> \o Unflat(Tail(ans.sh), i)), 1, ans.sh[1]) = Q1
\* a bias of one changes nothing in either model, zero density contrast stays zero, and never below -1
Models == Is("model") => \A p \in 1..Len(ans.log.v) : QLe(<<-1, 1>>, ans.log.v[p]) \/ ans.log.v[p][2] = 0
UnitBias == (Is("model") /\ \A k \in 1..Len(q.b.v) : q.b.v[k] = 1) => ans.lin = ans.log
\* m-th coefficient of multipole l sits at l (l + 1) / 2 + m
AlmLaw == Is("alm") => \A l \in 0..q.l, m \in 0..q.l : m <= l =>
    LET p == (l * (l + 1)) \div 2 + m + 1 IN ans[p] = q.alm[p] * q.bl[l + 1]
Emit == q.ask # "" => CSVWrite("%1$s", <<ToJson([q |-> q, ans |-> ans])>>, IOEnv.OUT)
=============================================================================

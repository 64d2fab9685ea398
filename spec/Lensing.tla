------------------------------ MODULE Lensing ------------------------------
(* Iterated multi-plane lensing.  Distances between planes come from a      *)
(* constant-curvature geometry: plane p has sin-like and cos-like numbers   *)
(* with c^2 + K s^2 = 1, and D(i, j) = s_j c_i - s_i c_j.  Convergences are *)
(* kept as coefficients of the overdensities of all planes offered, so one  *)
(* behaviour stands for every map.                                          *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS Geos,      \* set of [k, s, c, f]: curvature, s_p, c_p, (3/2) Omega_m (1+z)/E(z) of plane p >= 1
          Ws,        \* lensing weights
          MaxOffers  \* length of a history
VARIABLES geo, hist, zp, k2, k3, r23, w3, d3, log
vars == <<geo, hist, zp, k2, k3, r23, w3, d3, log>>
\* hist: accepted offers [p, w, o] (o: number of the offer), zp: the last two planes accepted (0: observer)
S(p) == IF p = 0 THEN Q0 ELSE geo.s[p]
C(p) == IF p = 0 THEN Q1 ELSE geo.c[p]
D(i, j) == QSub(QMul(S(j), C(i)), QMul(S(i), C(j)))
F(p) == IF p = 0 THEN QI(1) ELSE geo.f[p]
N == Len(geo.s)
Zero == [o \in 1..MaxOffers |-> Q0]
Unit(o) == [x \in 1..MaxOffers |-> IF x = o THEN Q1 ELSE Q0]
VAdd(a, b) == [o \in 1..MaxOffers |-> QAdd(a[o], b[o])]
VScale(q, a) == [o \in 1..MaxOffers |-> QMul(q, a[o])]

Init == /\ geo \in Geos /\ hist = <<>> /\ zp = <<0, 0>> /\ k2 = Zero /\ k3 = Zero /\ r23 = Q1 /\ w3 = Q0
        /\ d3 = Zero /\ log = <<>>
Offers == Len(log)
\* the recurrence over three planes
Accept(p, w) ==
    LET z1 == zp[1]  z2 == zp[2]
        r13 == QDiv(D(z1, p), S(p))
        n23 == QDiv(D(z2, p), S(p))
        t == QDiv(r13, r23)
        f == QMul(QMul(F(z2), QMul(S(z2), n23)), w3)
        new == VAdd(VAdd(VScale(QSub(Q1, t), k2), VScale(t, k3)), VScale(f, d3))
    IN  /\ p > z2
        /\ hist' = Append(hist, [p |-> p, w |-> w, o |-> Offers + 1])
        /\ zp' = <<z2, p>> /\ k2' = k3 /\ k3' = new /\ r23' = n23 /\ w3' = w /\ d3' = Unit(Offers + 1)
        /\ log' = Append(log, [p |-> p, w |-> w, ok |-> TRUE, kappa |-> new])
        /\ UNCHANGED geo
Refuse(p, w) ==
    /\ p <= zp[2]
    /\ log' = Append(log, [p |-> p, w |-> w, ok |-> FALSE, kappa |-> k3])
    /\ UNCHANGED <<geo, hist, zp, k2, k3, r23, w3, d3>>
Next == /\ Offers < MaxOffers
        /\ \E p \in 0..N, w \in Ws : Accept(p, w) \/ Refuse(p, w)
Spec == Init /\ [][Next]_vars

\* the lensing sum
Lens(j, i) == QMul(QMul(F(j), S(j)), QDiv(D(j, i), S(i)))
Coef(h, o) == LET J == {j \in 1..(Len(h) - 1) : h[j].o = o}
              IN  IF J = {} THEN Q0
                  ELSE LET j == CHOOSE x \in J : TRUE IN QMul(h[j].w, Lens(h[j].p, h[Len(h)].p))
Direct == hist # <<>> => \A o \in 1..MaxOffers : k3[o] = Coef(hist, o)
LastPlane == hist # <<>> => LET e == hist[Len(hist)] IN zp[2] = e.p /\ w3 = e.w /\ d3 = Unit(e.o)
\* planes at the source or behind it, and refused ones, do not matter
Causal == \A o \in 1..Offers : (~log[o].ok \/ log[o].p >= zp[2]) => k3[o] = Q0
Geometry == \A p \in 1..N : QAdd(QMul(C(p), C(p)), QMul(QI(geo.k), QMul(S(p), S(p)))) = Q1
Increasing == \A i \in 1..(Len(hist) - 1) : hist[i].p < hist[i + 1].p
Emit == Offers = MaxOffers => CSVWrite("%1$s", <<ToJson([geo |-> geo, log |-> log])>>, IOEnv.OUT)
=============================================================================

------------------------------- MODULE Sphere -------------------------------
(* Moving on the unit sphere.  Angles are given by exact rational (cos,     *)
(* sin) pairs.  A starts on the meridian of longitude 0 (a rotation about   *)
(* the axis covers the rest); north and east at A define directions, also   *)
(* at the poles.  "move" goes from A by an arc in a direction, "look"       *)
(* measures arc and direction of a given point B.                           *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS Circle   \* set of <<cos, sin>> pairs
VARIABLES op, a, p, q, state, out
vars == <<op, a, p, q, state, out>>
Lat == {c \in Circle : c[1][1] >= 0}

Vec(lat, lon) == <<QMul(lat[1], lon[1]), QMul(lat[1], lon[2]), lat[2]>>
Dot(u, v) == QDot(u, v)
A == <<a[1], Q0, a[2]>>
North == <<QNeg(a[2]), Q0, a[1]>>
East == <<Q0, Q1, Q0>>
Comb(u, x, v, y, w, z) == [i \in 1..3 |-> QAdd(QMul(u, x[i]), QAdd(QMul(v, y[i]), QMul(w, z[i])))]

\* move: p is the arc, q the direction from north towards east; look: p is B's latitude, q its longitude
Init == /\ op \in {"move", "look"} /\ a \in Lat /\ q \in Circle
        /\ p \in (IF op = "move" THEN Circle ELSE Lat)
        /\ state = "start" /\ out = <<>>
Move == /\ op = "move" /\ state = "start"
        /\ out' = Comb(p[1], A, QMul(p[2], q[1]), North, QMul(p[2], q[2]), East)
        /\ state' = "done" /\ UNCHANGED <<op, a, p, q>>
\* <<cos arc, sin arc * cos direction, sin arc * sin direction>>
Look == /\ op = "look" /\ state = "start"
        /\ LET b == Vec(p, q) IN out' = <<Dot(A, b), Dot(North, b), Dot(East, b)>>
        /\ state' = "done" /\ UNCHANGED <<op, a, p, q>>
Next == Move \/ Look
Spec == Init /\ [][Next]_vars

Done == state = "done"
OnSphere == Done => Dot(out, out) = Q1
Orthonormal == Dot(A, A) = Q1 /\ Dot(North, North) = Q1 /\ Dot(A, North) = Q0 /\ Dot(A, East) = Q0 /\ Dot(North, East) = Q0
\* measuring a move gives the move back, moving by what was measured arrives
Inverse == (Done /\ op = "move") => /\ Dot(A, out) = p[1]
                                    /\ Dot(North, out) = QMul(p[2], q[1])
                                    /\ Dot(East, out) = QMul(p[2], q[2])
Arrive == (Done /\ op = "look") => Comb(out[1], A, out[2], North, out[3], East) = Vec(p, q)
\* zero arc stays, the full reverse direction by the complementary arc arrives at the same point
Stay == (Done /\ op = "move" /\ p = <<Q1, Q0>>) => out = A
Emit == Done => CSVWrite("%1$s", <<ToJson([op |-> op, a |-> a, p |-> p, q |-> q, out |-> out])>>, IOEnv.OUT)
=============================================================================

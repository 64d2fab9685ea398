---------------------------- MODULE Convergence ----------------------------
(* Maps derived from a convergence map.  The harmonic coefficients carry    *)
(* one factor for every multipole, which is changed in stages (potential,   *)
(* deflection, shear); requested maps are synthesised on the way.  Factors  *)
(* are kept as signed squares, which are rational.                          *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS Lmax,     \* set of maximum multipoles
          Num, Den  \* ratio of the window functions at multipole l is (l + Num) / (l + Den)
VARIABLES lmax, want, disc, pc, fac, out
vars == <<lmax, want, disc, pc, fac, out>>
Outputs == {"potential", "deflection", "shear"}
Order == <<"potential", "deflection", "shear">>
SgnSq(q) == QMul(q, QAbs(q))
Win(l) == IF disc THEN SgnSq(Norm(l + Num, l + Den)) ELSE Q1
Init == /\ lmax \in Lmax /\ want \in SUBSET Outputs /\ disc \in BOOLEAN
        /\ pc = "start" /\ fac = [i \in 1..(lmax + 1) |-> Q1] /\ out = <<>>
\* multiply every multipole by the factor with signed square f(l); f negative flips the sign
Times(f(_)) == fac' = [i \in 1..(lmax + 1) |-> QMul(fac[i], f(i - 1))]
Take(o) == out' = IF o \in want THEN Append(out, [name |-> o, fac |-> fac']) ELSE out
Start == /\ pc = "start" /\ want = {} /\ pc' = "end" /\ UNCHANGED <<lmax, want, disc, fac, out>>
ToPotential == /\ pc = "start" /\ want # {}
               /\ LET f(l) == IF l = 0 THEN Q0 ELSE QNeg(Norm(4, l * l * (l + 1) * (l + 1))) IN Times(f)
               /\ Take("potential") /\ pc' = "potential" /\ UNCHANGED <<lmax, want, disc>>
ToDeflection == /\ pc = "potential" /\ want \cap {"deflection", "shear"} # {}
                /\ LET f(l) == QI(l * (l + 1)) IN Times(f)
                /\ Take("deflection") /\ pc' = "deflection" /\ UNCHANGED <<lmax, want, disc>>
ToShear == /\ pc = "deflection" /\ "shear" \in want
           /\ LET f(l) == IF l = 0 THEN Q0 ELSE QMul(Norm((l - 1) * (l + 2), 4), Win(l)) IN Times(f)
           /\ Take("shear") /\ pc' = "shear" /\ UNCHANGED <<lmax, want, disc>>
Stop == /\ pc \in Outputs /\ ~ENABLED (ToDeflection \/ ToShear) /\ pc' = "end" /\ UNCHANGED <<lmax, want, disc, fac, out>>
Next == Start \/ ToPotential \/ ToDeflection \/ ToShear \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* closed forms: -2 / (l (l + 1)), -2 / sqrt(l (l + 1)), -sqrt((l - 1)(l + 2) / (l (l + 1))) w
Closed(o, l) ==
  IF l = 0 THEN Q0
  ELSE QNeg(IF o = "potential" THEN Norm(4, l * l * (l + 1) * (l + 1))
            ELSE IF o = "deflection" THEN Norm(4, l * (l + 1))
            ELSE QMul(Norm((l - 1) * (l + 2), l * (l + 1)), Win(l)))
\* every output has the closed-form factor, whatever else was requested
Factors == \A k \in 1..Len(out) : \A l \in 0..lmax : out[k].fac[l + 1] = Closed(out[k].name, l)
InOrder == \A k \in 1..Len(out) : \A j \in 1..Len(out) : k < j =>
             (CHOOSE a \in 1..3 : Order[a] = out[k].name) < (CHOOSE a \in 1..3 : Order[a] = out[j].name)
Requested == /\ \A k \in 1..Len(out) : out[k].name \in want
             /\ pc = "end" => Cardinality(want) = Len(out)
NoMonopole == \A k \in 1..Len(out) : out[k].fac[1] = Q0
NoDipole == \A k \in 1..Len(out) : (out[k].name = "shear" /\ lmax > 0) => out[k].fac[2] = Q0
\* potential, deflection and shear undo each other: d = -sqrt(l(l+1)) psi and g^2 = (l-1)(l+2)/4 d^2
Chain == \A j, k \in 1..Len(out) : (out[j].name = "potential" /\ out[k].name = "deflection") =>
           \A l \in 1..lmax : out[k].fac[l + 1] = QMul(QI(l * (l + 1)), out[j].fac[l + 1])
Ends == <>(pc = "end")
Emit == pc = "end" => CSVWrite("%1$s", <<ToJson([lmax |-> lmax, want |-> want, disc |-> disc, out |-> out])>>, IOEnv.OUT)
=============================================================================

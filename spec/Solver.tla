------------------------------- MODULE Solver -------------------------------
(* Gauss-Newton iteration with step halving for a Gaussian spectrum.        *)
(* The transformation is the environment: at every new trial solution it    *)
(* answers with an error vector (realised minus target) from Errs and a     *)
(* slope; the same trial is always answered in the same way.                *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS Targets,   \* set of targets (sequences of positive integers; first entry may be 0)
          Inits,     \* set of initial solutions (sequences of integers of any length)
          Errs,      \* Errs[n]: set of error vectors of length n
          Slopes,    \* set of non-zero integers, 0 for "not a finite step"
          Pads, MaxIters, MaxHalf,
          Monopoles, \* set of sequences: <<>> not given, <<m>> given
          ClTol, GlTol  \* rationals that no ratio attains
VARIABLES cl, par, gl, tr, xl, half, it, info, pc, seen, errs
vars == <<cl, par, gl, tr, xl, half, it, info, pc, seen, errs>>
n == Len(cl)
Inf == <<1, 0>>
QLeI(a, b) == IF b = Inf THEN TRUE ELSE IF a = Inf THEN FALSE ELSE QLe(a, b)
Rel(d, y) == IF d = Q0 THEN Q0 ELSE IF y = Q0 THEN Inf ELSE QAbs(QDiv(d, y))
RECURSIVE MaxRel(_, _, _)
MaxRel(d, y, k) == IF k = 0 THEN Q0 ELSE LET r == Rel(d[k], y[k]) m == MaxRel(d, y, k - 1) IN IF QLeI(r, m) THEN m ELSE r
Qs(s) == [i \in 1..Len(s) |-> QI(s[i])]
HasMono == Len(par.mono) = 1
Masked(e) == [i \in 1..n |-> IF i = 1 /\ HasMono THEN Q0 ELSE QI(e[i])]
Known(g) == \E k \in 1..Len(seen) : seen[k].gl = g
Ans(g) == LET k == CHOOSE k \in 1..Len(seen) : seen[k].gl = g IN seen[k]
ClErr(a) == MaxRel(Masked(a.e), Qs(cl), n)
Cut(s) == [i \in 1..n |-> IF i = 1 /\ HasMono THEN QI(par.mono[1]) ELSE IF i <= Len(s) THEN QI(s[i]) ELSE Q0]
\* answers to a trial
Answers(g) == IF Known(g) THEN {Ans(g)} ELSE {[gl |-> g, e |-> e, d |-> d, tail |-> Len(seen) + 1] : e \in Errs[n], d \in Slopes}
Note(a) == seen' = IF Known(a.gl) THEN seen ELSE Append(seen, a)
\* numbers that are zero here are only rounding in the implementation: such answers are left out where it matters
Clean(g, a) == \A i \in 1..n : (i = 1 /\ HasMono) \/ ~(g[i] = Q0 /\ a.e[i] = 0)
Init == /\ cl \in Targets
        /\ par \in [init : Inits, mono : Monopoles, pad : Pads, maxiter : MaxIters]
        /\ (cl[1] = 0 => Len(par.mono) = 1)
        /\ gl = <<>> /\ tr = <<>> /\ xl = <<>> /\ half = 0 /\ it = 0 /\ info = 0 /\ pc = "begin" /\ seen = <<>> /\ errs = <<>>
\* tr: the answer at the current solution
Begin == /\ pc = "begin"
         /\ gl' = Cut(par.init)
         /\ \E a \in Answers(gl') : Clean(gl', a) /\ tr' = a /\ Note(a) /\ errs' = <<ClErr(a)>>
         /\ pc' = "check" /\ UNCHANGED <<cl, par, xl, half, it, info>>
Converged == QLeI(ClErr(tr), ClTol)
Check == /\ pc = "check"
         /\ info' = IF Converged /\ info % 2 = 0 THEN info + 1 ELSE info
         /\ pc' = IF info' > 0 \/ it = par.maxiter THEN "end" ELSE "step"
         /\ UNCHANGED <<cl, par, gl, tr, xl, half, it, seen, errs>>
Step == /\ pc = "step"
        /\ IF tr.d = 0 THEN pc' = "end" /\ UNCHANGED <<xl, half, it>>
           ELSE /\ xl' = [i \in 1..n |-> QNeg(QDiv(Masked(tr.e)[i], QI(tr.d)))]
                /\ half' = 0 /\ it' = it + 1 /\ pc' = "try"
        /\ UNCHANGED <<cl, par, gl, tr, info, seen, errs>>
Trial == [i \in 1..n |-> QAdd(gl[i], xl[i])]
Accept(a) == /\ info' = IF QLeI(MaxRel(xl, gl, n), GlTol) THEN info + 2 ELSE info
             /\ gl' = a.gl /\ tr' = a /\ errs' = Append(errs, ClErr(a)) /\ pc' = "check"
Try == /\ pc = "try"
       /\ \E a \in Answers(Trial) :
            /\ Clean(Trial, a) /\ Note(a)
            /\ (a.gl # gl => ClErr(a) # ClErr(tr))
            /\ IF QLeI(ClErr(a), ClErr(tr))
               THEN Accept(a) /\ UNCHANGED <<xl, half>>
               ELSE /\ half < MaxHalf
                    /\ xl' = [i \in 1..n |-> QHalf(xl[i])] /\ half' = half + 1
                    /\ UNCHANGED <<gl, tr, info, pc, errs>>
       /\ UNCHANGED <<cl, par, it>>
\* no shorter step is better: the step shrinks to nothing
Shrink == /\ pc = "try" /\ half = MaxHalf /\ ~Known(Trial)
          /\ \A i \in 1..n : gl[i] # Q0 \/ (i = 1 /\ HasMono)
          /\ info' = info + 2 /\ errs' = Append(errs, ClErr(tr)) /\ pc' = "check" /\ xl' = [i \in 1..n |-> Q0]
          /\ UNCHANGED <<cl, par, gl, tr, half, it, seen>>
Next == Begin \/ Check \/ Step \/ Try \/ Shrink
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "end"
\* status tells the truth
BitOne == Done => ((info % 2 = 1) <=> QLeI(ClErr(tr), ClTol))
BitTwo == (Done /\ info >= 2) => it > 0 /\ (QLeI(MaxRel(xl, gl, n), GlTol) \/ \E g \in {seen[k].gl : k \in 1..Len(seen)} : QLeI(MaxRel(xl, g, n), GlTol))
Status == info \in 0..3
Within == it <= par.maxiter
Decreasing == \A k \in 1..(Len(errs) - 1) : QLeI(errs[k + 1], errs[k])
MonopoleKept == (HasMono /\ gl # <<>>) => gl[1] = QI(par.mono[1])
AsIs == (Done /\ QLeI(errs[1], ClTol)) => it = 0 /\ gl = Cut(par.init) /\ info = 1
Realised == (gl # <<>>) => tr.gl = gl
Emit == Done => CSVWrite("%1$s", <<ToJson([cl |-> cl, par |-> par, seen |-> seen, gl |-> gl, tr |-> tr, info |-> info, it |-> it, errs |-> errs])>>, IOEnv.OUT)
=============================================================================

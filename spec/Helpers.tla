------------------------------ MODULE Helpers ------------------------------
(* Interpolation along an axis, integrals of products, cumulative integrals, *)
(* bias models and multiplication by multipole.  A list of functions is      *)
(* built one by one; the answers are taken from any list.                    *)
EXTENDS Arr, Json, CSV, IOUtils
CONSTANTS Grids, Ys,    \* grids; values are taken from Ys, cyclically from a starting place
          MaxF, What
VARIABLES fs, ask, ans
vars == <<fs, ask, ans>>
Y(x, o, s) == [k \in 1..Len(x) |-> Ys[((o + s * k) % Len(Ys)) + 1]]
Init == fs = <<>> /\ ask = "" /\ ans = <<>>
Add == /\ ask = "" /\ Len(fs) < MaxF
       /\ \E x \in Grids, o \in 0..2, s \in {1, 3} : fs' = Append(fs, [x |-> x, y |-> Y(x, o, s)])
       /\ UNCHANGED <<ask, ans>>
\* every two of the functions overlap
Overlap(l) == QLe(QMaxL([k \in 1..Len(l) |-> l[k].x[1]]), QMinL([k \in 1..Len(l) |-> Last(l[k].x)]))
AskProduct == /\ "product" \in What /\ ask = "" /\ fs # <<>> /\ (Len(fs) <= 2 \/ Overlap(fs))
              /\ ask' = "product" /\ ans' = [value |-> Product(fs), grid |-> Common(fs)] /\ UNCHANGED fs
AskBias == /\ "bias" \in What /\ ask = "" /\ Len(fs) = 2 /\ Trap(fs[2].x, fs[2].y) # Q0
           /\ ask' = "bias" /\ ans' = [value |-> EffBias(fs[1].x, fs[1].y, fs[2].x, fs[2].y)] /\ UNCHANGED fs
AskCum == /\ "cum" \in What /\ ask = "" /\ Len(fs) = 1
          /\ ask' = "cum" /\ ans' = [value |-> Cum(fs[1].x, fs[1].y)] /\ UNCHANGED fs
Next == Add \/ AskProduct \/ AskBias \/ AskCum
Spec == Init /\ [][Next]_vars
One(x) == [x |-> x, y |-> [k \in 1..Len(x) |-> Q1]]
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
\* the order of the functions does not matter; a function one over the whole range changes nothing
Symmetric == ask = "product" => ans.value = Product(Rev(fs))
Neutral == (ask = "product" /\ Len(ans.grid) > 1) => Product(Append(fs, One(<<ans.grid[1], Last(ans.grid)>>))) = ans.value
NoRange == (ask = "product" /\ Len(ans.grid) < 2) => ans.value = Q0
Additive == (ask = "product" /\ Len(fs) = 2) =>
    Product(<<fs[1], [fs[2] EXCEPT !.y = [k \in 1..Len(@) |-> QAdd(@[k], fs[2].x[k])]]>>)
      = QAdd(ans.value, Product(<<fs[1], [fs[2] EXCEPT !.y = fs[2].x]>>))
\* a constant bias is its own effective value if the bias is known over the window
ConstantBias == ask = "bias" => EffBias(fs[2].x, [k \in 1..Len(fs[2].x) |-> <<3, 2>>], fs[2].x, fs[2].y) = <<3, 2>>
\* starts at zero, differences are trapezoids, ends with the integral
CumLaw == ask = "cum" => /\ Len(ans.value) = Len(fs[1].x) /\ ans.value[1] = Q0 /\ Last(ans.value) = Trap(fs[1].x, fs[1].y)
                         /\ \A k \in 2..Len(ans.value) : ans.value[k] = Trap(SubSeq(fs[1].x, 1, k), SubSeq(fs[1].y, 1, k))
Emit == ask # "" => CSVWrite("%1$s", <<ToJson([ask |-> ask, fs |-> fs, ans |-> ans])>>, IOEnv.OUT)
=============================================================================

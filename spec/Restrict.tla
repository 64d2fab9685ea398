------------------------------ MODULE Restrict ------------------------------
(* Functions tabulated on a grid, restricted to windows on their own grids. *)
(* The union grid is walked from the left, node by node.  f is a symbolic   *)
(* table: results are coefficients of its entries (everything is linear in  *)
(* f), so one behaviour stands for every function.                          *)
EXTENDS Rat, FiniteSets, Json, CSV, IOUtils
CONSTANTS ZGrids,  \* increasing integer sequences
          WinSets  \* sequences of windows [z, v] (increasing integers, integers)
VARIABLES zg, ws, wi, todo, row, rows, parts
vars == <<zg, ws, wi, todo, row, rows, parts>>
Elems(s) == {s[i] : i \in 1..Len(s)}
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
\* weights of the two neighbouring entries in linear interpolation on grid g at x; zero outside
IW(g, x) == [i \in 1..Len(g) |->
               IF x < g[1] \/ x > g[Len(g)] THEN Q0
               ELSE IF g[i] = x THEN Q1
               ELSE IF i < Len(g) /\ g[i] < x /\ x < g[i + 1] THEN Norm(g[i + 1] - x, g[i + 1] - g[i])
               ELSE IF i > 1 /\ g[i - 1] < x /\ x < g[i] THEN Norm(x - g[i - 1], g[i] - g[i - 1])
               ELSE Q0]
WVal(w, x) == LET c == IW(w.z, x) f(i) == QMul(c[i], QI(w.v[i])) IN QSumR(f, 1, Len(w.z))
VScale(q, a) == [i \in 1..Len(a) |-> QMul(q, a[i])]
VAdd(a, b) == [i \in 1..Len(a) |-> QAdd(a[i], b[i])]
Inside(w) == {x \in Elems(zg) : w.z[1] < x /\ x < w.z[Len(w.z)]} \cup Elems(w.z)
Zero == [i \in 1..Len(zg) |-> Q0]
Init == /\ zg \in ZGrids /\ ws \in WinSets /\ wi = 1 /\ todo = Inside(ws[1]) /\ row = <<>> /\ rows = <<>> /\ parts = <<>>
\* next node of the union grid: the product there, as coefficients of f
Node == /\ wi <= Len(ws) /\ todo # {}
        /\ LET x == MinSet(todo) IN
           /\ row' = Append(row, [x |-> x, c |-> VScale(WVal(ws[wi], x), IW(zg, x))])
           /\ todo' = todo \ {x}
        /\ UNCHANGED <<zg, ws, wi, rows, parts>>
Trap(r) == LET f(i) == VScale(Norm(r[i + 1].x - r[i].x, 2), VAdd(r[i].c, r[i + 1].c))
               S[i \in 0..(Len(r) - 1)] == IF i = 0 THEN Zero ELSE VAdd(S[i - 1], f(i))
           IN  S[Len(r) - 1]
Close == /\ wi <= Len(ws) /\ todo = {}
         /\ rows' = Append(rows, row) /\ parts' = Append(parts, Trap(row))
         /\ row' = <<>> /\ wi' = wi + 1
         /\ todo' = IF wi < Len(ws) THEN Inside(ws[wi + 1]) ELSE {}
         /\ UNCHANGED <<zg, ws>>
Next == Node \/ Close
Spec == Init /\ [][Next]_vars
Done == wi > Len(ws)
\* all windows together
All == UNION {Elems(ws[i].z) : i \in 1..Len(ws)} \cup Elems(zg)
SumW(x) == LET f(i) == WVal(ws[i], x) IN QSumR(f, 1, Len(ws))
\* windows with shared nodes that add up to one between lo and hi
Lo == ws[1].z[1]
Hi == ws[Len(ws)].z[Len(ws[Len(ws)].z)]
\* overlaps are sampled alike: a node of one window inside another is a node of it
Aligned == \A i, j \in 1..Len(ws) : \A x \in Elems(ws[i].z) :
              (ws[j].z[1] <= x /\ x <= ws[j].z[Len(ws[j].z)]) => x \in Elems(ws[j].z)
\* triangular sets: at every node the windows sum to one except outside
UnitySet == \A x \in All : (Lo < x /\ x < Hi) => SumW(x) = Q1
Ordered == \A k \in 1..Len(rows) : \A i \in 1..(Len(rows[k]) - 1) : rows[k][i].x < rows[k][i + 1].x
\* whole integral of f over the covered range, f being zero outside of its grid
Whole == LET X == {x \in All : Lo <= x /\ x <= Hi}
             r == [i \in 1..Cardinality(X) |-> LET x == CHOOSE y \in X : Cardinality({v \in X : v < y}) = i - 1
                                               IN  [x |-> x, c |-> VScale(SumW(x), IW(zg, x))]]
         IN  Trap(r)
SumsUp == (Done /\ Aligned /\ UnitySet) =>
            LET T[i \in 0..Len(ws)] == IF i = 0 THEN Zero ELSE VAdd(T[i - 1], parts[i]) IN T[Len(ws)] = Whole
Emit == Done => CSVWrite("%1$s", <<ToJson([zg |-> zg, ws |-> ws, rows |-> rows, parts |-> parts,
           unity |-> Aligned /\ UnitySet])>>, IOEnv.OUT)
=============================================================================

------------------------------- MODULE CellMC --------------------------------
(* Design check: samples arrive one at a time.  The cell size shrinks or    *)
(* stays as samples arrive, samples the finest fringe at least twice, does  *)
(* not depend on the order of arrival, and a grid that is large enough      *)
(* stays so when more cells are added.  Emits every set of samples.         *)
EXTENDS Cell
CONSTANTS MaxB, MaxW, MaxLen
Factors == {<<1, 1>>, <<3, 1>>, <<3, 2>>}
VARIABLES b, w, f
vars == <<b, w, f>>
Init == /\ \E x \in (-MaxB..MaxB) \ {0} : b = <<x>>
        /\ \E y \in 1..MaxW : w = <<y>>
        /\ f \in Factors
Next == /\ UNCHANGED f
        /\ \/ Len(b) < MaxLen /\ (\E x \in -MaxB..MaxB : b' = Append(b, x)) /\ UNCHANGED w
           \/ Len(w) < MaxLen /\ (\E y \in 1..MaxW : w' = Append(w, y)) /\ UNCHANGED b
Spec == Init /\ [][Next]_vars
P == PerRadian(b, w, f)
\* at least two cells per fringe of every baseline and wavelength (factor >= 1)
Nyquist == \A i \in DOMAIN b, k \in DOMAIN w : 2 * Abs(b[i]) * P[2] <= P[1] * w[k]
Finer == [][LET Q == PerRadian(b', w', f') IN P[1] * Q[2] <= Q[1] * P[2]]_vars
Order == \A i \in DOMAIN b :
    PerRadian(<<b[i]>> \o RemoveAt(b, i), w, f) = P
Grow == \A n \in 1..20 : ~TooSmall(b, f, n) => ~TooSmall(b, f, n + 1)
\* the grid is large enough for every baseline once it is for the shortest
Holds == \A n \in 1..20 : ~TooSmall(b, f, n) =>
    \A i \in DOMAIN b : n * Abs(b[i]) * f[2] >= 2 * f[1] * Longest(b)
Emit == (Len(b) = Len(w)) => EmitJson([b |-> b, w |-> w, f |-> f])
=============================================================================

------------------------------ MODULE SplineMC ------------------------------
(* The tridiagonal system of a spline solved exactly by elimination, row    *)
(* after row; unknowns are half the second derivatives.                     *)
EXTENDS Spline
CONSTANTS MaxN, Ys
VARIABLES c, d, v, z, i, up
vars == <<c, d, v, z, i, up>>
\* fractions <<n, d>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Fr(n, k) == IF n = 0 THEN <<0, 1>> ELSE
    LET s == IF k < 0 THEN 0 - 1 ELSE 1
        g == Gcd(Abs(n), Abs(k)) IN <<s * (n \div g), Abs(k) \div g>>
NegF(a) == <<0 - a[1], a[2]>>
Add(a, b) == Fr((a[1] * b[2]) + (b[1] * a[2]), a[2] * b[2])
Mul(a, b) == LET p == Fr(a[1], b[2])
                 q == Fr(b[1], a[2]) IN Fr(p[1] * q[1], p[2] * q[2])
Inv(a) == IF a[1] > 0 THEN <<a[2], a[1]>> ELSE <<0 - a[2], 0 - a[1]>>
Sub(a, b) == Add(a, NegF(b))
Div(a, b) == Mul(a, Inv(b))
I(n) == <<n, 1>>
Z == <<0, 1>>
\* row k: lower, diagonal, upper, right hand side
Row(k) == LET n == Len(c.x) IN
    IF k = 1 THEN
        IF c.lt = 2 THEN <<Z, I(2), Z, I(c.lv)>>
        ELSE <<Z, I(2 * H(c, 1)), I(H(c, 1)), Mul(I(3), Sub(Fr(c.y[2] - c.y[1], H(c, 1)), I(c.lv)))>>
    ELSE IF k = n THEN
        IF c.rt = 2 THEN <<Z, I(2), Z, I(c.rv)>>
        ELSE <<I(H(c, n - 1)), I(2 * H(c, n - 1)), Z, Mul(I(3), Sub(I(c.rv), Fr(c.y[n] - c.y[n - 1], H(c, n - 1))))>>
    ELSE <<Fr(H(c, k - 1), 3), Fr(2 * (H(c, k - 1) + H(c, k)), 3), Fr(H(c, k), 3),
           Sub(Fr(c.y[k + 1] - c.y[k], H(c, k)), Fr(c.y[k] - c.y[k - 1], H(c, k - 1)))>>
Knots == UNION {{[k \in 1..n |-> IF k = 1 THEN 0 ELSE SumTo(k - 1, LAMBDA j : hs[j])] : hs \in [1..(n - 1) -> 1..2]} : n \in 2..MaxN}
Init == /\ \E x \in Knots : \E y \in [DOMAIN x -> Ys] : \E lt, rt \in 1..2 : \E lv, rv \in 0..1 :
            c = [x |-> x, y |-> y, lt |-> lt, rt |-> rt, lv |-> lv, rv |-> rv]
        /\ d = <<Row(1)[2]>> /\ v = <<Row(1)[4]>> /\ z = [k \in DOMAIN c.x |-> Z] /\ i = 2 /\ up = FALSE
Down == /\ ~up /\ i <= Len(c.x)
        /\ LET w == Div(Row(i)[1], d[i - 1]) IN
           /\ d' = Append(d, Sub(Row(i)[2], Mul(w, Row(i - 1)[3])))
           /\ v' = Append(v, Sub(Row(i)[4], Mul(w, v[i - 1])))
        /\ i' = i + 1 /\ UNCHANGED <<c, z, up>>
Turn == /\ ~up /\ i = Len(c.x) + 1 /\ up' = TRUE /\ i' = Len(c.x) - 1
        /\ z' = [z EXCEPT ![Len(c.x)] = Div(v[Len(c.x)], d[Len(c.x)])] /\ UNCHANGED <<c, d, v>>
Back == /\ up /\ i >= 1
        /\ z' = [z EXCEPT ![i] = Div(Sub(v[i], Mul(Row(i)[3], z[i + 1])), d[i])]
        /\ i' = i - 1 /\ UNCHANGED <<c, d, v, up>>
Next == Down \/ Turn \/ Back
Spec == Init /\ [][Next]_vars
Done == up /\ i = 0
Pivots == \A k \in DOMAIN d : d[k][1] > 0
\* each row of the system holds
Solved == Done => \A k \in DOMAIN c.x :
    Add(Add(IF k > 1 THEN Mul(Row(k)[1], z[k - 1]) ELSE Z, Mul(Row(k)[2], z[k])),
        IF k < Len(c.x) THEN Mul(Row(k)[3], z[k + 1]) ELSE Z) = Row(k)[4]
\* and the checks on observations accept the rounded solution
Obs(q) == ((U * q[1]) + (q[2] \div 2)) \div q[2]
M == [k \in DOMAIN c.x |-> Obs(Mul(I(2), z[k]))]
Accepted == Done => Smooth(c, M)
Emit == Done => EmitJson(c)
=============================================================================

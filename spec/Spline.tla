------------------------------- MODULE Spline -------------------------------
(* Cubic splines through integer knots, described by their values and       *)
(* second derivatives M at the knots.  Observations are thousandths,        *)
(* positions are halves.                                                    *)
EXTENDS Num
U == 1000
\* c.x, c.y knots; c.lt, c.rt end conditions (1: first, 2: second derivative)
H(c, i) == c.x[i + 1] - c.x[i]
N(c) == Len(c.x)
Y(c, i) == U * c.y[i]
Close(a, b, t) == a - b <= t /\ b - a <= t
\* first derivative continuous at the inner knots
Smooth(c, m) == \A i \in 2..(N(c) - 1) :
    LET p == H(c, i - 1)
        q == H(c, i) IN
    Close(p * q * ((p * m[i - 1]) + (2 * (p + q) * m[i]) + (q * m[i + 1])),
         6 * ((p * (Y(c, i + 1) - Y(c, i))) - (q * (Y(c, i) - Y(c, i - 1)))),
         2 * p * q * (p + q) + 2)
Ends(c, m, d) ==
    /\ Close(IF c.lt = 2 THEN m[1] ELSE d[1], U * c.lv, 1)
    /\ Close(IF c.rt = 2 THEN m[N(c)] ELSE d[N(c)], U * c.rv, 1)
\* the piece of a position t (in halves)
Piece(c, t) == IF t >= 2 * c.x[N(c)] THEN N(c) - 1
    ELSE CHOOSE i \in 1..(N(c) - 1) : 2 * c.x[i] <= t /\ t < 2 * c.x[i + 1]
InRange(c, t) == 2 * c.x[1] <= t /\ t <= 2 * c.x[N(c)]
Value(c, m, t, v) ==
    LET i == Piece(c, t)
        h == H(c, i)
        a == 2 * c.x[i + 1] - t
        b == t - 2 * c.x[i] IN
    Close(48 * h * v,
         (m[i] * a * a * a) + (m[i + 1] * b * b * b) + (24 * Y(c, i) * a) + (24 * Y(c, i + 1) * b)
         - (4 * m[i] * h * h * a) - (4 * m[i + 1] * h * h * b), (24 * h) + (4 * h * h * h) + 4)
Slope(c, m, t, v) ==
    LET i == Piece(c, t)
        h == H(c, i)
        a == 2 * c.x[i + 1] - t
        b == t - 2 * c.x[i] IN
    Close(24 * h * v,
         (3 * m[i + 1] * b * b) - (3 * m[i] * a * a) + (24 * (Y(c, i + 1) - Y(c, i)))
         - (4 * (m[i + 1] - m[i]) * h * h), (12 * h) + (20 * h * h) + 4)
Bend(c, m, t, v) ==
    LET i == Piece(c, t)
        h == H(c, i) IN
    Close(2 * h * v, (m[i] * (2 * c.x[i + 1] - t)) + (m[i + 1] * (t - 2 * c.x[i])), (3 * h) + 1)
\* outside: the quadratic with the value, slope and bend of the end
Outside(c, m, d, t, v) ==
    LET i == IF t < 2 * c.x[1] THEN 1 ELSE N(c)
        e == t - 2 * c.x[i] IN
    /\ Close(8 * v[1], (8 * Y(c, i)) + (4 * d[i] * e) + (m[i] * e * e), 6 + (3 * Abs(e)) + (e * e))
    /\ Close(2 * v[2], (2 * d[i]) + (m[i] * e), 4 + Abs(e))
    /\ Close(v[3], m[i], 1)
SplineVerdict(c, o, e) ==
    IF e # "" THEN {"raised", e}
    ELSE Fail("knots", \A i \in DOMAIN c.x : Close(o.y[i], Y(c, i), 1))
         \cup Fail("smooth", Smooth(c, o.m)) \cup Fail("ends", Ends(c, o.m, o.d))
         \cup Fail("slopes", \A i \in DOMAIN c.x : Slope(c, o.m, 2 * c.x[i], o.d[i]))
         \cup UNION {LET t == c.t[k] IN
            IF InRange(c, t)
            THEN Fail("value", Value(c, o.m, t, o.v[k][1])) \cup Fail("slope", Slope(c, o.m, t, o.v[k][2]))
                 \cup Fail("bend", Bend(c, o.m, t, o.v[k][3]))
            ELSE Fail("outside", Outside(c, o.m, o.d, t, o.v[k])) : k \in DOMAIN c.t}
         \cup Fail("input", o.same) \cup Fail("bad-order", o.err)
=============================================================================

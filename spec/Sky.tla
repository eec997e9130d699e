-------------------------------- MODULE Sky --------------------------------
(* Antenna and sky Jones terms evaluated on exact lattices: quarter-turn    *)
(* phases, Pythagorean rotation angles, integer beam cubes and dyadic       *)
(* Zernike coordinates.                                                     *)
EXTENDS Num

Ok(e, f) == IF e # "" THEN {"raised", e} ELSE f
Common(o) == Fail("dtype", o.dtype_ok) \cup
             Fail("inputs-unchanged", o.inputs_ok) \cup
             Fail("metadata", o.meta_ok)
Shape1(x, n) == Len(x) = n
Shape2(x, n, m) == Len(x) = n /\ \A i \in 1..n : Len(x[i]) = m
Shape3(x, n, m, k) == Len(x) = n /\ \A i \in 1..n : Shape2(x[i], m, k)
Shape4(x, n, m, k, j) == Len(x) = n /\ \A i \in 1..n : Shape3(x[i], m, k, j)
Shape5(x, n, m, k, j, h) ==
    Len(x) = n /\ \A i \in 1..n : Shape4(x[i], m, k, j, h)

-----------------------------------------------------------------------------
(* Phase delay.  Source s lies at (a, b)/d with n = c/d; uvw is in units of *)
(* D/4 reference wavelengths, frequency in reference frequencies.           *)
QuarterTurns(c, s, r, f) ==
    LET z == c.src[s]
        w == c.uvw[r] IN
    (z[1]*w[1] + z[2]*w[2] + (z[3] - z[4])*w[3]) * (c.D \div z[4]) * c.freq[f]
PhaseVerdict(c, o, e) ==
    IF c.conv \notin {"fourier", "casa"}
    THEN Fail("must-raise-ValueError", e = "ValueError")
    ELSE Ok(e,
      IF ~Shape3(o.v, Len(c.src), Len(c.uvw), Len(c.freq)) THEN {"shape"}
      ELSE Fail("phase", \A s \in 1..Len(c.src), r \in 1..Len(c.uvw),
                            f \in 1..Len(c.freq) :
             LET k == QuarterTurns(c, s, r, f)
                 q == Quarter(IF c.conv = "fourier" THEN -k ELSE k) IN
             CNear(o.v[s][r][f], q, 1, o.S, c.tol)) \cup Common(o))

(* Feed rotation by angles with rational cosine/sine <<c, s, den>>.         *)
FeedVerdict(c, o, e) ==
    IF c.must # "" THEN Fail("must-raise-" \o c.must, e = c.must)
    ELSE Ok(e,
      IF ~(Len(o.v) = Len(c.ang) /\ \A i \in 1..Len(c.ang) : Len(o.v[i]) = 4)
      THEN {"shape"}
      ELSE Fail("rotation", \A i \in 1..Len(c.ang) :
             LET x == c.ang[i]
                 m == IF c.feed = "linear"
                      THEN << <<x[1], 0>>, <<x[2], 0>>,
                              <<-x[2], 0>>, <<x[1], 0>> >>
                      ELSE << <<x[1], -x[2]>>, CZero, CZero,
                              <<x[1], x[2]>> >> IN
             \A k \in 1..4 : CNear(o.v[i][k], m[k], x[3], o.S, c.tol)) \cup
           Common(o))

(* Source coordinates: rotated, offset, scaled.                             *)
TransformVerdict(c, o, e) ==
    Ok(e,
      IF ~Shape5(o.v, 3, c.nsrc, c.ntime, c.nant, c.nchan) THEN {"shape"}
      ELSE Fail("coordinates", \A s \in 1..c.nsrc, t \in 1..c.ntime,
                                  a \in 1..c.nant, f \in 1..c.nchan :
             LET x == c.ang[t][a]
                 l == c.lm[s][1]*x[1] - c.lm[s][2]*x[2] + c.pe[t][a][1]*x[3]
                 m == c.lm[s][1]*x[2] + c.lm[s][2]*x[1] + c.pe[t][a][2]*x[3]
             IN /\ Near(o.v[1][s][t][a][f], l*c.sc[a][f], x[3], o.S, c.tol)
                /\ Near(o.v[2][s][t][a][f], m*c.sc[a][f], x[3], o.S, c.tol)
                /\ Near(o.v[3][s][t][a][f], c.freq[f], 1, o.S, c.tol)) \cup
           Common(o))

(* Vectors scaled by 2^14: g.s points at the field centre, g.p at the pole  *)
(* and g.z at the antenna's zenith.  u = <<cos, sin>> of an angle is the    *)
(* position angle of the zenith seen from s, from the pole towards east.    *)
Sc == 16384
Dot3(a, b) == (a[1]*b[1] + a[2]*b[2] + a[3]*b[3]) \div Sc
Cross3(a, b) == << (a[2]*b[3] - a[3]*b[2]) \div Sc,
                   (a[3]*b[1] - a[1]*b[3]) \div Sc,
                   (a[1]*b[2] - a[2]*b[1]) \div Sc >>
IsPositionAngle(u, g, tol) ==
    LET e == Dot3(g.z, Cross3(g.p, g.s))
        n == Dot3(g.z, g.p) - (Dot3(g.p, g.s)*Dot3(g.z, g.s)) \div Sc
    IN /\ Abs(e*u[1] - n*u[2]) \div Sc <= tol
       /\ (n*u[1] + e*u[2]) \div Sc >= -tol

(* Parallactic angles: every (time, antenna) entry is the angle of that     *)
(* time and antenna alone, whatever else is in the call and however it is   *)
(* chunked; o.one holds the entries computed one by one.                    *)
ParangleVerdict(c, o, e) ==
    IF c.must # "" THEN Fail("must-raise-" \o c.must, e = c.must)
    ELSE Ok(e,
      IF ~Shape2(o.v, c.ntime, c.nant) THEN {"shape"}
      ELSE (IF c.backend = "test"
            THEN Fail("product", \A t \in 1..c.ntime, a \in 1..c.nant :
                   o.v[t][a] = o.S * c.t[t] * SumSeq(c.pos[a]))
            ELSE Fail("pointwise", \A t \in 1..c.ntime, a \in 1..c.nant :
                   Abs(o.v[t][a] - o.one[t][a]) <= 2)) \cup
           (IF c.backend = "test" THEN {}
            ELSE Fail("position-angle", \A t \in 1..c.ntime, a \in 1..c.nant :
                   IsPositionAngle(o.unit[t][a], o.geo[t][a], 128))) \cup
           Common(o))

-----------------------------------------------------------------------------
(* Beam cube.  Grid spacing c.step, lower extents c.low, rotation angles    *)
(* with denominator 5, antenna scaling in halves, frequency ratios outside  *)
(* the cube in halves; positions along an axis are held over 20 * step.     *)
FreqCell(c, f) ==
    LET v == c.freq[f]
        n == Len(c.fmap)
        \* <<doubled scaling, lower cell, weight of lower in quarters>>
    IN IF v < c.fmap[1] THEN <<(2*v) \div c.fmap[1], 1, 4>>
       ELSE IF v > c.fmap[n] THEN <<(2*v) \div c.fmap[n], n - 1, 0>>
       ELSE IF v = c.fmap[n] THEN <<2, n - 1, 0>>
       ELSE LET k == Max({j \in 1..n : c.fmap[j] <= v})
                d == c.fmap[k + 1] - c.fmap[k] IN
            <<2, k, ((c.fmap[k + 1] - v)*4) \div d>>

BeamPos(c, s, t, a, f) ==
    LET fs == FreqCell(c, f)[1]
        x == c.ang[t][a]
        g == 5 \div x[3]
        tl == c.lm[s][1]*fs + 2*c.pe[t][a][f][1]
        tm == c.lm[s][2]*fs + 2*c.pe[t][a][f][2]
        rl == (tl*x[1] - tm*x[2])*g
        rm == (tl*x[2] + tm*x[1])*g
        ql == rl*c.sc[a][f][1] - 20*c.low[1]
        qm == rm*c.sc[a][f][2] - 20*c.low[2]
    IN <<MaxI(0, MinI(ql, (c.lw - 1)*20*c.step[1])),
         MaxI(0, MinI(qm, (c.mh - 1)*20*c.step[2]))>>

\* <<amplitude sum, complex sum>> over DL*DM*4, correlation p
BeamSum(c, s, t, a, f, p) ==
    LET DL == 20*c.step[1]
        DM == 20*c.step[2]
        pos == BeamPos(c, s, t, a, f)
        i == pos[1] \div DL
        j == pos[2] \div DM
        i1 == MinI(i + 1, c.lw - 1)
        j1 == MinI(j + 1, c.mh - 1)
        u == pos[1] - i*DL
        v == pos[2] - j*DM
        fc == FreqCell(c, f)
        corners == << <<i, j, 0, (DL - u)*(DM - v)*fc[3]>>,
                      <<i1, j, 0, u*(DM - v)*fc[3]>>,
                      <<i, j1, 0, (DL - u)*v*fc[3]>>,
                      <<i1, j1, 0, u*v*fc[3]>>,
                      <<i, j, 1, (DL - u)*(DM - v)*(4 - fc[3])>>,
                      <<i1, j, 1, u*(DM - v)*(4 - fc[3])>>,
                      <<i, j1, 1, (DL - u)*v*(4 - fc[3])>>,
                      <<i1, j1, 1, u*v*(4 - fc[3])>> >>
        at(q) == c.beam[q[1] + 1][q[2] + 1][fc[2] + q[3]][p]
    IN << SumTo(8, LAMBDA k : corners[k][4] * at(corners[k])[3]),
          CSumTo(8, LAMBDA k : CScale(corners[k][4],
                        <<at(corners[k])[1], at(corners[k])[2]>>)) >>

BeamVerdict(c, o, e) ==
    IF c.must # "" THEN Fail("must-raise-" \o c.must, e = c.must)
    ELSE Ok(e,
      IF ~Shape5(o.v, c.nsrc, c.ntime, c.nant, c.nchan, c.ncorr)
      THEN {"shape"}
      ELSE LET Cells == (1..c.nsrc) \X (1..c.ntime) \X (1..c.nant) \X
                        (1..c.nchan)
               den == 400*c.step[1]*c.step[2]*4
               good(z, p) ==
                 LET bs == BeamSum(c, z[1], z[2], z[3], z[4], p)
                     v == o.v[z[1]][z[2]][z[3]][z[4]][p]
                     \* expected modulus, in units of 1/S
                     A == (o.S * bs[1]) \div den
                     N == bs[2]
                     k == Abs(N[1]) + Abs(N[2])
                 IN /\ Abs(v[1]) < 20000 /\ Abs(v[2]) < 20000
                    /\ IF N = CZero THEN Sq(v[1]) + Sq(v[2]) <= Sq(A + 2)
                       ELSE /\ Sq(v[1]) + Sq(v[2]) <= Sq(A + 1 + c.tol)
                            /\ Sq(v[1]) + Sq(v[2]) >=
                                  Sq(MaxI(0, A - c.tol))
                            /\ Abs(v[1]*N[2] - v[2]*N[1]) <= c.tol*k
                            /\ v[1]*N[1] + v[2]*N[2] >= -c.tol*k
           IN Fail("interpolated", \A z \in Cells, p \in 1..c.ncorr :
                                      good(z, p)) \cup Common(o))

-----------------------------------------------------------------------------
(* Zernike polynomials (Noll order) at (l, m) = (a, b)/4.                   *)
Noll == << <<0,0>>, <<1,1>>, <<1,-1>>, <<2,0>>, <<2,-2>>, <<2,2>>, <<3,-1>>,
           <<3,1>>, <<3,-3>>, <<3,3>>, <<4,0>>, <<4,2>>, <<4,-2>>, <<4,4>>,
           <<4,-4>>, <<5,1>>, <<5,-1>>, <<5,3>>, <<5,-3>>, <<5,5>>,
           <<5,-5>> >>
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE CPow(_, _)
CPow(z, k) == IF k = 0 THEN COne ELSE CMul(z, CPow(z, k - 1))
\* numerator over 4^5
ZernikeNum(j, a, b) ==
    LET nm == Noll[j + 1]
        n == nm[1]
        m == Abs(nm[2])
        h == (n - m) \div 2
        r2 == a*a + b*b
        rad == SumTo(h + 1, LAMBDA i :
                 LET k == i - 1 IN
                 (IF k % 2 = 0 THEN 1 ELSE -1) *
                 (Fact(n - k) \div (Fact(k) * Fact((n + m) \div 2 - k) *
                                    Fact(h - k))) *
                 Pow(r2, h - k) * Pow(16, k))
        ang == CPow(<<b, a>>, m)
        t == IF nm[2] < 0 THEN ang[2] ELSE ang[1]
    IN IF r2 > 16 THEN 0 ELSE rad * t * Pow(4, 5 - n)
ZernikeVerdict(c, o, e) ==
    Ok(e,
      IF ~Shape5(o.v, c.nsrc, c.ntime, c.nant, c.nchan, c.ncorr)
      THEN {"shape"}
      ELSE Fail("zernike", \A s \in 1..c.nsrc, t \in 1..c.ntime,
                              a \in 1..c.nant, f \in 1..c.nchan,
                              p \in 1..c.ncorr :
             LET xy == c.xy[s][t][a][f]
                 tot == CSumTo(c.npoly, LAMBDA k :
                          CScale(ZernikeNum(c.noll[a][f][p][k],
                                            xy[1], xy[2]),
                                 c.coef[a][f][p][k]))
             IN CNear(o.v[s][t][a][f][p], tot, 1024, o.S, c.tol)) \cup
           Common(o))
=============================================================================

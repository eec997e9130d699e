-------------------------------- MODULE Flux --------------------------------
(* Source spectra, Gaussian shapes and WSClean component prediction.        *)
(* Frequencies are powers of two of a reference unit, so that every flux is *)
(* a dyadic rational: recorded values are compared with flux * 2^14.        *)
(*   std    I * prod_i (f/f0)^c_i                = I * 2^(k * sum_i c_i)     *)
(*   log    exp(ln I + sum_i a_i ln(f/f0)^i)     = I * 2^(sum_i c_i k^i)     *)
(*          with f/f0 = 2^k and a_i = c_i ln(2)^(1-i); log10 likewise        *)
(*   poly   I + sum_i c_i (f/f0 - 1)^i                                       *)
EXTENDS Num

P == 14
Pow2(n) == Pow(2, n)
\* x * 2^e, rounded down, for possibly negative e
Shift(x, e) == IF e >= 0 THEN x * Pow2(e)
               ELSE IF e < -30 THEN (IF x < 0 THEN -1 ELSE 0) ELSE x \div Pow2(-e)
RECURSIVE PowS(_, _)
PowS(b, e) == IF e = 0 THEN 1 ELSE b * PowS(b, e - 1)

StdExp(cs, k) == k * SumSeq(cs)
LogExp(cs, k) == SumTo(Len(cs), LAMBDA i : cs[i] * PowS(k, i))
StdFlux(I, cs, k) == Shift(I, P + StdExp(cs, k))
LogFlux(I, cs, k) == Shift(I, P + LogExp(cs, k))
\* (2^k - 1)^i: numerator over 2^(i * max(0, -k))
PolyFlux(I, cs, k) ==
    I * Pow2(P) + SumTo(Len(cs), LAMBDA i :
        LET num == IF k >= 0 THEN PowS(Pow2(k) - 1, i)
                   ELSE PowS(1 - Pow2(-k), i)
            den == IF k >= 0 THEN 0 ELSE -k * i IN
        Shift(cs[i] * num, P - den))

\* v within a relative 2^-rel of the exact x, and tol units
Close(v, x, rel, tol) == Abs(v) < BIG /\ Abs(v - x) <= tol + Abs(x) \div Pow2(rel)

Ok(e, f) == IF e # "" THEN {"raised", e} ELSE f
Common(o) == Fail("dtype", o.dtype_ok) \cup
             Fail("inputs-unchanged", o.inputs_ok) \cup
             Fail("metadata", o.meta_ok)
Shape2(x, n, m) == Len(x) = n /\ \A i \in 1..n : Len(x[i]) = m
Shape3(x, n, m, k) == Len(x) = n /\ \A i \in 1..n : Shape2(x[i], m, k)

-----------------------------------------------------------------------------
BaseOf(c, p) == IF p <= Len(c.base) THEN c.base[p] ELSE c.base[Len(c.base)]
SpecFlux(c, s, f, p) ==
    LET k == c.fr[f] - c.ref[s]
        cs == [i \in 1..Len(c.spi[s]) |-> c.spi[s][i][p]] IN
    IF BaseOf(c, p) = "std" THEN StdFlux(c.I[s][p], cs, k)
    ELSE LogFlux(c.I[s][p], cs, k)
SpecVerdict(c, o, e) ==
    IF c.must # "" THEN Fail("must-raise-" \o c.must, e = c.must)
    ELSE Ok(e,
      IF ~Shape3(o.v, Len(c.I), Len(c.fr), c.npol) THEN {"shape"}
      ELSE Fail("spectrum", \A s \in 1..Len(c.I), f \in 1..Len(c.fr), p \in 1..c.npol :
                  Close(o.v[s][f][p], SpecFlux(c, s, f, p), c.rel, 2)) \cup Common(o))

-----------------------------------------------------------------------------
\* wsclean: one polarisation, per source polynomial type
WsFlux(c, s, f) ==
    LET k == c.fr[f] - c.ref[s] IN
    IF c.log[s] THEN LogFlux(c.I[s], c.coef[s], k)
    ELSE PolyFlux(c.I[s], c.coef[s], k)
WsMust(c) == IF c.must # "" THEN c.must
             ELSE IF Len(c.fr) > 0 /\ \E s \in DOMAIN c.I : c.log[s] /\ c.I[s] <= 0
             THEN "ValueError" ELSE ""
WsVerdict(c, o, e) ==
    IF WsMust(c) # "" THEN Fail("must-raise-" \o WsMust(c), e = WsMust(c))
    ELSE Ok(e,
      IF ~Shape2(o.v, Len(c.I), Len(c.fr)) THEN {"shape"}
      ELSE Fail("spectrum", \A s \in 1..Len(c.I), f \in 1..Len(c.fr) :
                  Close(o.v[s][f], WsFlux(c, s, f), c.rel, 2)) \cup Common(o))

-----------------------------------------------------------------------------
(* Gaussian shape: half maxima at the given axes; the major axis lies at    *)
(* position angle (cos, sin)/d from m towards l.  Lengths are in units of   *)
(* 1/d in which the shape is 2^-E.                                          *)
ShapeExp(g, u, v, q) ==
    LET x == (u * g.ang[1] - v * g.ang[2]) * g.min
        y == (u * g.ang[2] + v * g.ang[1]) * g.maj
        d == g.ang[3] IN
    q * q * (Sq(x \div (d * d)) + Sq(y \div (d * d)))
Divisible(g, u, v) == LET d == Sq(g.ang[3]) IN
    ((u * g.ang[1] - v * g.ang[2]) * g.min) % d = 0 /\
    ((u * g.ang[2] + v * g.ang[1]) * g.maj) % d = 0
GaussVerdict(c, o, e) ==
    Ok(e,
      IF ~Shape3(o.v, Len(c.g), Len(c.uvw), Len(c.q)) THEN {"shape"}
      ELSE Fail("lattice", \A s \in DOMAIN c.g, r \in DOMAIN c.uvw :
                  Divisible(c.g[s], c.uvw[r][1], c.uvw[r][2])) \cup
           Fail("gaussian", \A s \in DOMAIN c.g, r \in DOMAIN c.uvw, f \in DOMAIN c.q :
             LET x == ShapeExp(c.g[s], c.uvw[r][1], c.uvw[r][2], c.q[f]) IN
             Close(o.v[s][r][f], Shift(1, 20 - MinI(x, 60)), c.rel, 2)) \cup Common(o))

-----------------------------------------------------------------------------
(* Prediction: sum of flux * shape * exp(2 pi i f (lu + mv + (n-1)w)/c).    *)
QuarterTurns(c, s, r, f) ==
    LET z == c.src[s]
        w == c.uvw[r] IN
    (z[1]*w[1] + z[2]*w[2] + (z[3] - z[4])*w[3]) * (c.D \div z[4]) * Pow2(c.fr[f])
Term(c, s, r, f) ==
    LET x == IF c.type[s] = "GAUSSIAN"
             THEN ShapeExp(c.g[s], c.uvw[r][1], c.uvw[r][2], Pow2(c.fr[f]))
             ELSE 0 IN
    CScale(Shift(WsFlux(c, s, f), -MinI(x, 60)), Quarter(QuarterTurns(c, s, r, f)))
Vis(c, r, f) == CSumTo(Len(c.src), LAMBDA s : Term(c, s, r, f))
PredMust(c) == IF WsMust(c) # "" THEN WsMust(c)
               ELSE IF \E s \in DOMAIN c.type : c.type[s] \notin {"POINT", "GAUSSIAN"}
               THEN "ValueError" ELSE ""
PredVerdict(c, o, e) ==
    IF PredMust(c) # "" THEN Fail("must-raise-" \o PredMust(c), e = PredMust(c))
    ELSE Ok(e,
      IF ~Shape3(o.v, Len(c.uvw), Len(c.fr), 1) THEN {"shape"}
      ELSE Fail("visibility", \A r \in 1..Len(c.uvw), f \in 1..Len(c.fr) :
             LET z == Vis(c, r, f)
                 t == 2 + Len(c.src) + SumTo(Len(c.src), LAMBDA s :
                              Abs(WsFlux(c, s, f))) \div Pow2(c.rel) IN
             Abs(o.v[r][f][1][1] - z[1]) <= t /\ Abs(o.v[r][f][1][2] - z[2]) <= t) \cup
           Common(o))

FluxVerdict(c, o, e) == CASE c.fn = "spec" -> SpecVerdict(c, o, e)
                          [] c.fn = "ws" -> WsVerdict(c, o, e)
                          [] c.fn = "gauss" -> GaussVerdict(c, o, e)
                          [] c.fn = "pred" -> PredVerdict(c, o, e)
=============================================================================

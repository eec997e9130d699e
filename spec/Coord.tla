-------------------------------- MODULE Coord --------------------------------
(* Direction cosines of sources relative to a phase centre.  Angles have    *)
(* rational cosine and sine: <<c, s, d>> stands for the angle with cosine   *)
(* c/d and sine s/d.                                                        *)
EXTENDS Num

\* source at right ascension difference a and declination b, phase centre
\* declination z; everything over a[3] * b[3] * z[3]
Den(a, b, z) == a[3] * b[3] * z[3]
L(a, b, z) == b[1] * a[2] * z[3]
M(a, b, z) == b[2] * z[1] * a[3] - b[1] * z[2] * a[1]
N(a, b, z) == b[2] * z[2] * a[3] + b[1] * z[1] * a[1]

AngleIs(v, x, S, tol) == Near(v[1], x[1], x[3], S, tol) /\ Near(v[2], x[2], x[3], S, tol)
Common(o) == Fail("dtype", o.dtype_ok) \cup
             Fail("inputs-unchanged", o.inputs_ok) \cup
             Fail("metadata", o.meta_ok)
CoordVerdict(c, o, e) ==
    IF c.must # "" THEN Fail("must-raise-" \o c.must, e = c.must)
    ELSE IF e # "" THEN {"raised", e}
    ELSE IF Len(o.v) # Len(c.src) THEN {"shape"}
    ELSE Common(o) \cup
      (IF c.fn = "fwd"
       THEN Fail("direction-cosines", \A i \in DOMAIN c.src :
              LET a == c.src[i][1]
                  b == c.src[i][2]
                  x == <<L(a, b, c.pc), M(a, b, c.pc), N(a, b, c.pc)>> IN
              /\ Len(o.v[i]) = c.n
              /\ \A k \in 1..c.n : Near(o.v[i][k], x[k], Den(a, b, c.pc), c.S, c.tol))
       ELSE Fail("right-ascension", \A i \in DOMAIN c.src :
              \* (cos, sin) of the returned ra minus the phase centre's
              AngleIs(o.v[i][1], c.src[i][1], c.S, c.tol)) \cup
            Fail("declination", \A i \in DOMAIN c.src :
              AngleIs(o.v[i][2], c.src[i][2], c.S, c.tol)))
=============================================================================

-------------------------------- MODULE Cell ---------------------------------
(* The cell size of an image: 1 / (2 * factor * longest baseline) radians,  *)
(* baselines counted in the shortest wavelength, and the number of cells    *)
(* needed to hold the angular scale of the shortest baseline.  Baselines    *)
(* and wavelengths are integers in common units, the factor is f[1]/f[2].   *)
EXTENDS Num

Longest(b) == Max({Abs(x) : x \in ToSet(b)})
Shortest(b) == Min({Abs(x) : x \in ToSet(b)})
\* cells per radian, a rational <<num, den>>
PerRadian(b, w, f) == <<2 * f[1] * Longest(b), f[2] * Min(ToSet(w))>>
\* n cells against the scale of the shortest baseline: negative too few,
\* zero exactly enough
Room(b, f, n) == n * Shortest(b) * f[2] - 2 * f[1] * Longest(b)

\* nothing is required of the grid when no size is given
TooSmall(b, f, n) == n # 0 /\ Room(b, f, n) < 0
Edge(b, f, n) == n # 0 /\ Room(b, f, n) = 0
CellVerdict(c, o, e) ==
    IF c.must # "" THEN Fail("must-raise-" \o c.must, e = c.must)
    ELSE IF TooSmall(c.u, c.f, c.ny) \/ TooSmall(c.v, c.f, c.nx)
    THEN Fail("must-raise-ValueError", e = "ValueError")
    \* exactly enough cells: decided by rounding unless the numbers are exact
    ELSE IF e = "ValueError" /\ ~c.exact /\ (Edge(c.u, c.f, c.ny) \/ Edge(c.v, c.f, c.nx)) THEN {}
    ELSE IF e # "" THEN {"raised", e}
    ELSE Fail("inputs-unchanged", o.inputs_ok) \cup
         Fail("shape", Len(o.v) = 2) \cup
         (IF Len(o.v) # 2 THEN {} ELSE
          LET pu == PerRadian(c.u, c.w, c.f)
              pv == PerRadian(c.v, c.w, c.f) IN
          Fail("u-cell-size", Near(o.v[1], pu[1], pu[2], c.S, c.tol)) \cup
          Fail("v-cell-size", Near(o.v[2], pv[1], pv[2], c.S, c.tol)))
=============================================================================

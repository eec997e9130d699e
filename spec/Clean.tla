-------------------------------- MODULE Clean --------------------------------
(* Hogbom CLEAN as a state machine.  All values are integers scaled by SC,  *)
(* a power of two large enough that every division by 2^g is exact.         *)
(*   state: [res, clean (n x n), it, tie] ; images are sequences of rows    *)
(* The centre of the psf is its (zero-based) pixel (n-1, n-1).              *)
EXTENDS Num

PixMax(n, im) == Max({im[x][y] : x \in 1..n, y \in 1..n})
Peaks(n, im) == LET m == PixMax(n, im) IN
                {z \in (1..n) \X (1..n) : im[z[1]][z[2]] = m}
Start(c) == [res |-> [x \in 1..c.n |-> [y \in 1..c.n |-> c.sc * c.dirty[x][y]]],
             clean |-> [x \in 1..c.n |-> [y \in 1..c.n |-> 0]], it |-> 0]
\* one iteration at peak z
CleanStep(c, s, z) ==
    LET d == PixMax(c.n, s.res) \div Pow(2, c.g) IN
    [res |-> [x \in 1..c.n |-> [y \in 1..c.n |->
                s.res[x][y] - d * c.psf[c.n - z[1] + x][c.n - z[2] + y]]],
     clean |-> [s.clean EXCEPT ![z[1]][z[2]] = @ + d],
     it |-> s.it + 1]
\* may iteration go on / stop?  (equality with an inexact threshold: either)
Above(c, s) == c.tden * Abs(PixMax(c.n, s.res)) >
               c.tnum * Abs(PixMax(c.n, Start(c).res))
AtThreshold(c, s) == c.tden * Abs(PixMax(c.n, s.res)) =
                     c.tnum * Abs(PixMax(c.n, Start(c).res))
CanGo(c, s) == s.it < c.niter /\
               IF AtThreshold(c, s) THEN ~c.exact ELSE Above(c, s)
CanStop(c, s) == IF s.it >= c.niter THEN TRUE
                 ELSE IF AtThreshold(c, s) THEN TRUE ELSE ~Above(c, s)

RECURSIVE Outcomes(_, _)
Outcomes(c, s) ==
    (IF CanStop(c, s) THEN {s} ELSE {}) \cup
    (IF CanGo(c, s)
     THEN UNION {Outcomes(c, CleanStep(c, s, z)) : z \in Peaks(c.n, s.res)}
     ELSE {})

CleanVerdict(c, o, e) ==
    IF c.must # "" THEN Fail("must-raise-" \o c.must, e = c.must)
    ELSE IF e # "" THEN {"raised", e}
    ELSE Fail("clean-steps", \E s \in Outcomes(c, Start(c)) :
                  o.clean = s.clean /\ o.res = s.res) \cup
         Fail("inputs-unchanged", o.inputs_ok) \cup
         Fail("dtype", o.dtype_ok)

\* restored = residual + model convolved with the fitted beam: a single
\* component stays where it is, with its amplitude
RestoreVerdict(c, o, e) ==
    IF e # "" THEN {"raised", e}
    ELSE Fail("residual-added", o.sum_ok) \cup
         Fail("position", o.peak = c.pos) \cup
         Fail("amplitude", 20 * Abs(o.amp - 1000 * c.amp) <= 1000 * c.amp) \cup
         Fail("inputs-unchanged", o.inputs_ok)
=============================================================================

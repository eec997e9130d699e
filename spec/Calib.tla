-------------------------------- MODULE Calib --------------------------------
(* Calibration: applying, removing and subtracting antenna gains, and one   *)
(* step of the phase-only solver, over Gaussian integers.                   *)
(*                                                                          *)
(* Rows are grouped in consecutive time bins of c.tbc[t] rows.  Gains are   *)
(* c.J[t][p][f][d], models c.M[r][f][d] (or c.M[t][f][d] for component      *)
(* models), data c.V[r][f], all sequences over correlations.                *)
(*   mode 0: correlations multiply element-wise                             *)
(*   mode 1: diagonal gains (2) applied to 2x2 visibilities                 *)
(*   mode 2: 2x2 gains applied to 2x2 visibilities                          *)
EXTENDS Rime

\* time bin of row r (1-based)
BinOf(c, r) == CHOOSE t \in 1..Len(c.tbc) :
                  LET o == Offsets(c.tbc)[t] IN r > o /\ r <= o + c.tbc[t]
Lift(c, g) == IF c.cmode = 1 THEN <<g[1], CZero, CZero, g[2]>> ELSE g
Apply(c, gp, x, gq) == Sandwich(c.cmode # 0, Lift(c, gp), x, Lift(c, gq))
Flagged(c, r, f) == \E k \in 1..c.ncorr : c.F[r][f][k] # 0

SumDirs(c, t, p, q, f, val(_)) ==
    FoldLeft(LAMBDA acc, d : JAdd(acc, Apply(c, c.J[t][p][f][d], val(d),
                                             c.J[t][q][f][d])),
             JZero(c.ncorr), [d \in 1..c.ndir |-> d])
Corrupted(c, r, f) ==
    LET t == BinOf(c, r) IN
    SumDirs(c, t, c.a1[r] + 1, c.a2[r] + 1, f, LAMBDA d : c.M[r][f][d])
Residual(c, r, f) ==
    IF Flagged(c, r, f) THEN JZero(c.ncorr)
    ELSE LET m == Corrupted(c, r, f) IN
         [k \in 1..c.ncorr |-> CSub(c.V[r][f][k], m[k])]
\* component model: phase in quarter turns, direction cosines in 25ths,
\* amplitude 1/n as twelfths
Turns(c, r, t, f, d) ==
    LET p == c.lmn[t][d] IN
    - c.fm[f] * (c.uvw[r][1] * p[1] + c.uvw[r][2] * p[2]
                 + c.uvw[r][3] * (p[3] - 25))
InvN12(n) == CASE n = 25 -> 12 [] n = 20 -> 15 [] n = 15 -> 20
ComputedTimes12(c, r, f) ==
    LET t == BinOf(c, r) IN
    SumDirs(c, t, c.a1[r] + 1, c.a2[r] + 1, f,
            LAMBDA d : [k \in 1..c.ncorr |->
                CScale(InvN12(c.lmn[t][d][3]),
                       CMul(Quarter(Turns(c, r, t, f, d)), c.M[t][f][d][k]))])

Shaped(c, v) == /\ Len(v) = c.nrow
                /\ \A r \in 1..c.nrow : Len(v[r]) = c.nchan /\
                     \A f \in 1..c.nchan : Len(v[r][f]) = c.ncorr
Common(o) == Fail("dtype", o.dtype_ok) \cup Fail("metadata", o.meta_ok) \cup
             Fail("inputs-unchanged", o.inputs_ok)

ApplyVerdict(c, o, e) ==
    IF c.must # "" THEN Fail("must-raise-" \o c.must, e = c.must)
    ELSE IF e # "" THEN {"raised", e}
    ELSE IF ~Shaped(c, o.val) THEN {"shape"}
    ELSE Common(o) \cup
      (CASE c.fn = "corrupt" ->
              Fail("corrupted", \A r \in 1..c.nrow, f \in 1..c.nchan :
                 \A k \in 1..c.ncorr :
                   CNear(o.val[r][f][k], Corrupted(c, r, f)[k], 1, c.S, c.tol))
         [] c.fn = "residual" ->
              Fail("residual", \A r \in 1..c.nrow, f \in 1..c.nchan :
                 \A k \in 1..c.ncorr :
                   CNear(o.val[r][f][k], Residual(c, r, f)[k], 1, c.S, c.tol))
         [] c.fn = "compute" ->
              Fail("computed", \A r \in 1..c.nrow, f \in 1..c.nchan :
                 \A k \in 1..c.ncorr :
                   CNear(o.val[r][f][k], ComputedTimes12(c, r, f)[k], 12,
                         c.S, c.tol))
         [] c.fn = "correct" ->
              \* G_p C G_q^H = V
              Fail("corrected", \A r \in 1..c.nrow, f \in 1..c.nchan :
                 IF Flagged(c, r, f)
                 THEN \A k \in 1..c.ncorr : o.val[r][f][k] = CZero
                 ELSE LET t == BinOf(c, r)
                          x == Apply(c, c.J[t][c.a1[r]+1][f][1], o.val[r][f],
                                     c.J[t][c.a2[r]+1][f][1]) IN
                      \A k \in 1..c.ncorr :
                          CNear(x[k], c.V[r][f][k], 1, c.S, c.tol))
         [] OTHER -> {"unknown"})

-----------------------------------------------------------------------------
(* Partition of rows into chunks of whole unique times.                     *)
ChunkRowsVerdict(c, o, e) ==
    IF e # "" THEN {"raised", e}
    ELSE LET ut == SetToSortSeq({c.time[i] : i \in 1..Len(c.time)}, <)
             cnt == [k \in 1..Len(ut) |->
                       Cardinality({i \in 1..Len(c.time) : c.time[i] = ut[k]})]
             nch == (Len(ut) + c.per - 1) \div c.per
         IN Fail("counts", o.counts = cnt) \cup
            Fail("indices", o.indices = Offsets(cnt)) \cup
            Fail("chunks", o.chunks = [k \in 1..nch |->
               SumSeq(SubSeq(cnt, (k-1)*c.per + 1,
                             MinI(k * c.per, Len(ut))))])

-----------------------------------------------------------------------------
(* Phase-only solver.  With x = g_p m conj(g_q), the derivative of x with    *)
(* respect to the phase of antenna p is i x and of antenna q is -i x.       *)
RowsAt(c, t, f) == {r \in 1..c.nrow : BinOf(c, r) = t /\ ~Flagged(c, r, f)}
Pred(c, t, r, f, d, k) ==
    CMul(CMul(c.J[t][c.a1[r]+1][f][d][k], c.M[r][f][d][k]),
         CConj(c.J[t][c.a2[r]+1][f][d][k]))
Norm2(z) == Sq(z[1]) + Sq(z[2])
Hit(c, r, p) == (IF c.a1[r] + 1 = p THEN 1 ELSE 0)
              + (IF c.a2[r] + 1 = p THEN 1 ELSE 0)
Jhj(c, t, p, f, d, k) ==
    SumOver(RowsAt(c, t, f), LAMBDA r :
        IF Hit(c, r, p) > 0 THEN Hit(c, r, p) * Norm2(Pred(c, t, r, f, d, k))
        ELSE 0)
Jhr(c, R(_, _, _), t, p, f, d, k) ==
    CSumOver(RowsAt(c, t, f), LAMBDA r :
      LET z == CMul(CConj(Pred(c, t, r, f, d, k)), R(r, f, k))
          s == (IF c.a1[r] + 1 = p THEN -1 ELSE 0)
             + (IF c.a2[r] + 1 = p THEN 1 ELSE 0)
      IN CMul(<<0, s>>, z))
AllJ(c, P(_, _, _, _, _)) ==
    \A t \in 1..Len(c.tbc), p \in 1..c.nant, f \in 1..c.nchan,
       d \in 1..c.ndir, k \in 1..c.ncorr : P(t, p, f, d, k)
JShaped(c, v) ==
    /\ Len(v) = Len(c.tbc)
    /\ \A t \in 1..Len(v) : Len(v[t]) = c.nant /\
         \A p \in 1..c.nant : Len(v[t][p]) = c.nchan /\
           \A f \in 1..c.nchan : Len(v[t][p][f]) = c.ndir /\
             \A d \in 1..c.ndir : Len(v[t][p][f][d]) = c.ncorr
\* jhj and jhr of a given residual
NormalVerdict(c, o, e) ==
    IF c.must # "" THEN Fail("must-raise-" \o c.must, e = c.must)
    ELSE IF e # "" THEN {"raised", e}
    ELSE IF ~(o.jhj_has => JShaped(c, o.jhj)) \/
            ~(o.jhr_has => JShaped(c, o.jhr)) THEN {"shape"}
    ELSE Common(o) \cup
         Fail("jhj", o.jhj_has => AllJ(c, LAMBDA t, p, f, d, k :
             Near(o.jhj[t][p][f][d][k], Jhj(c, t, p, f, d, k), 1,
                  c.S, c.tol))) \cup
         Fail("jhr", o.jhr_has => AllJ(c, LAMBDA t, p, f, d, k :
             CNear(o.jhr[t][p][f][d][k],
                   Jhr(c, LAMBDA r, g, h : c.V[r][g][h], t, p, f, d, k), 1,
                   c.S, c.tol)))

\* One solver iteration from gains of quarter turns with weights w^2:
\* the phase moves by Re(jhr)/(2 jhj); antennas without data stay put.
Weighted(c) == [c EXCEPT
    !.V = [r \in 1..c.nrow |-> [f \in 1..c.nchan |-> [k \in 1..c.ncorr |->
             CScale(c.sw[r][f][k], c.V[r][f][k])]]],
    !.M = [r \in 1..c.nrow |-> [f \in 1..c.nchan |-> [d \in 1..c.ndir |->
             [k \in 1..c.ncorr |-> CScale(c.sw[r][f][k], c.M[r][f][d][k])]]]]]
StepVerdict(c0, o, e) ==
    IF e # "" THEN {"raised", e}
    ELSE IF ~JShaped(c0, o.dphase) THEN {"shape"}
    ELSE LET c == Weighted(c0)
             res(r, f, k) == Residual(c, r, f)[k] IN
         Common(o) \cup
         Fail("jhj", AllJ(c, LAMBDA t, p, f, d, k :
             Near(o.jhj[t][p][f][d][k], Jhj(c, t, p, f, d, k), 1,
                  c.S, c.tol))) \cup
         Fail("jhr", AllJ(c, LAMBDA t, p, f, d, k :
             CNear(o.jhr[t][p][f][d][k], Jhr(c, res, t, p, f, d, k), 1,
                   c.S, c.tol))) \cup
         \* dphase is the unwrapped change when it is known to be small
         Fail("step", AllJ(c, LAMBDA t, p, f, d, k :
             LET h == Jhj(c, t, p, f, d, k)
                 g == Jhr(c, res, t, p, f, d, k)[1] IN
             IF h = 0 THEN o.dphase[t][p][f][d][k] = 0
             ELSE Abs(g) <= 5 * h =>
                  Near(o.dphase[t][p][f][d][k], g, 2 * h, 512, 2))) \cup
         Fail("unit-modulus", o.unit_ok) \cup Fail("iterations", o.k = 1)

\* Convergence on noise-free data from a starting point near the truth.
SolveVerdict(c, o, e) ==
    IF e # "" THEN {"raised", e}
    ELSE Common(o) \cup Fail("unit-modulus", o.unit_ok) \cup
         Fail("iterations", o.k >= 1 /\ o.k <= c.maxiter) \cup
         Fail("converged", c.maxiter >= 100 =>
              o.k < c.maxiter /\ o.relerr <= 200) \cup
         Fail("fixed-point", c.start = "truth" => o.k = 1)
=============================================================================

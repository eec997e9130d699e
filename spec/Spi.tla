--------------------------------- MODULE Spi ---------------------------------
(* Weighted least squares fit of I(f) = b I0 (f/f0)^alpha per component.    *)
(* Channels lie at f0 * 2^k, alpha is an integer where the model is         *)
(* evaluated and everything is an integer after scaling the basis           *)
(* J_f = b_f 2^(alpha k_f) by 2^m.  All sums over channels.                 *)
EXTENDS Num

Pow2(n) == Pow(2, n)
Chans(c) == 1..Len(c.k)
\* basis, times 2^m with m large enough
M(c, al) == LET e == {al * c.k[f] : f \in Chans(c)} IN MaxI(0, -Min(e))
J(c, i, al, f) == c.beam[i][f] * Pow2(al * c.k[f] + M(c, al))
S0(c, i, al) == SumTo(Len(c.k), LAMBDA f : c.w[f] * Sq(J(c, i, al, f)))
S1(c, i, al) == SumTo(Len(c.k), LAMBDA f : c.w[f] * Sq(J(c, i, al, f)) * c.k[f])
S2(c, i, al) == SumTo(Len(c.k), LAMBDA f : c.w[f] * Sq(J(c, i, al, f)) * Sq(c.k[f]))
Det(c, i, al) == S0(c, i, al) * S2(c, i, al) - Sq(S1(c, i, al))
\* residual of channel f, times 2^m
R(c, i, al, I0, f) == Pow2(M(c, al)) * c.d[i][f] - I0 * J(c, i, al, f)
T0(c, i, al, I0) == SumTo(Len(c.k), LAMBDA f : c.w[f] * J(c, i, al, f) * R(c, i, al, I0, f))
T1(c, i, al, I0) == SumTo(Len(c.k), LAMBDA f :
                        c.w[f] * J(c, i, al, f) * R(c, i, al, I0, f) * c.k[f])
Lik(c, i, al, I0) == SumTo(Len(c.k), LAMBDA f : c.w[f] * Sq(R(c, i, al, I0, f)))

\* the Gauss-Newton step from (al, I0):
\*   d alpha * ln 2 = (S0 T1 - S1 T0) / (I0 Det),  d I0 = (S2 T0 - S1 T1) / Det
StepA(c, i, al, I0) == S0(c, i, al)*T1(c, i, al, I0) - S1(c, i, al)*T0(c, i, al, I0)
StepI(c, i, al, I0) == S2(c, i, al)*T0(c, i, al, I0) - S1(c, i, al)*T1(c, i, al, I0)
Stationary(c, i, al, I0) == T0(c, i, al, I0) = 0 /\ T1(c, i, al, I0) = 0

\* |v - 100 n/d| <= tol + v/256
Ratio(v, n, d, tol) ==
    LET t == Abs(v * d - 100 * n) IN
    Abs(v) < BIG /\ t <= tol * d + (Abs(v) \div 256) * d
Common(o) == Fail("dtype", o.dtype_ok) \cup
             Fail("inputs-unchanged", o.inputs_ok) \cup
             Fail("metadata", o.meta_ok)
\* recorded per component: o.a = 10^5 alpha, o.i = 100 I0,
\* o.da = 100 (alpha - al0) ln2 I0, o.di = 100 (I0 - I00),
\* o.va = 100 var(alpha) ln2^2 I0^2 4^m / 4^m, o.vi = 100 var(I0)
Dof(c) == Len(c.k) - 2
SpiVerdict(c, o, e) ==
    IF c.must # "" THEN Fail("must-raise-" \o c.must, e = c.must)
    ELSE IF e # "" THEN {"raised", e}
    ELSE IF Len(o.a) # Len(c.d) THEN {"shape"}
    ELSE Common(o) \cup UNION {
        LET al == c.al[i]
            I0 == c.I0[i]
            s0 == S0(c, i, al)
            s2 == S2(c, i, al)
            D == Det(c, i, al)
            L == Lik(c, i, al, I0) IN
        (IF c.fn = "step"
         THEN Fail("step-alpha", Ratio(o.da[i], StepA(c, i, al, I0), D, 2)) \cup
              Fail("step-I0", Ratio(o.di[i], StepI(c, i, al, I0), D, 2))
         ELSE Fail("precondition", Stationary(c, i, al, I0)) \cup
              Fail("alpha", Abs(o.a[i] - 100000 * al) <= c.tol) \cup
              Fail("I0", Abs(o.i[i] - 100 * I0) <= c.tol)) \cup
        (IF c.fn = "step" \/ c.var
         THEN Fail("var-alpha", Ratio(o.va[i], L * s0, Dof(c) * D, 2)) \cup
              Fail("var-I0", Ratio(o.vi[i], L * s2, Dof(c) * D, 2))
         ELSE {})
        : i \in DOMAIN c.d}
=============================================================================

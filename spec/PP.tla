--------------------------------- MODULE PP ----------------------------------
(* Convolutional gridding and degridding onto (faceted) uv grids.           *)
(*                                                                          *)
(* Angles are rational: <<cos, sin, den>>.  Baselines are lattice vectors   *)
(* c.uvw scaled by c.D * c.LL / 4 metres, c.LL a common multiple of the     *)
(* wavelengths c.lam and c.D of the facets' denominators, so that shifting  *)
(* the phase centre rotates by quarter turns.  One grid cell is             *)
(* c.sd / c.sn wavelengths.                                                 *)
EXTENDS Coord

\* --- geometry of a facet  f = <<right ascension offset, declination>> -----
FDen(c, f) == Den(f[1], f[2], c.z)
FL(c, f) == L(f[1], f[2], c.z)
FM(c, f) == M(f[1], f[2], c.z)
FN(c, f) == N(f[1], f[2], c.z)
\* rows of the rotation to the facet's frame, over FDen
RotU(c, f) == <<f[1][1] * f[2][3] * c.z[3], c.z[2] * f[1][2] * f[2][3],
                - c.z[1] * f[1][2] * f[2][3]>>
RotV(c, f) == <<- f[2][2] * f[1][2] * c.z[3],
                f[2][2] * c.z[2] * f[1][1] + f[2][1] * c.z[1] * f[1][3],
                - c.z[1] * f[2][2] * f[1][1] + f[2][1] * c.z[2] * f[1][3]>>
Dot3(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
\* uv position of a baseline in grid cells, as <<numerator u, numerator v, den>>
Position(c, f, r, ch) ==
    LET b == c.uvw[r]
        k == (c.LL \div c.lam[ch]) * c.sn
        g == c.D \div FDen(c, f) IN
    CASE c.btp = "None"   -> <<b[1] * c.D * k, b[2] * c.D * k, 4 * c.sd>>
      [] c.btp = "rotate" -> <<Dot3(RotU(c, f), b) * g * k,
                               Dot3(RotV(c, f), b) * g * k, 4 * c.sd>>
      [] OTHER            -> <<(b[1] * FN(c, f) - b[3] * FL(c, f)) * c.D * k,
                               (b[2] * FN(c, f) - b[3] * FM(c, f)) * c.D * k,
                               4 * c.sd * FN(c, f)>>
\* phase of the facet centre in quarter turns
Turns(c, f, r, ch) ==
    IF c.ptp = "None" THEN 0
    ELSE (c.uvw[r][1] * FL(c, f) + c.uvw[r][2] * FM(c, f)
          + c.uvw[r][3] * (FN(c, f) - FDen(c, f)))
         * (c.D \div FDen(c, f)) * (c.LL \div c.lam[ch])

\* --- the kernel ------------------------------------------------------------
Disc(p, q) == (2 * p + q) \div (2 * q)
Frac(p, q, os) == LET t == (Disc(p, q) * q - p) * os IN
                  IF t >= 0 THEN t \div q ELSE -((-t) \div q)
\* weight of grid line x (0-based) for a position p/q cells from the centre
Tap(c, p, q, x) ==
    LET at == Disc(p, q) + c.npix \div 2
        t  == x - at + c.W \div 2 IN
    IF c.conv = "nn" THEN IF x = at THEN 1 ELSE 0
    ELSE IF t < 0 \/ t >= c.W THEN 0
    ELSE c.K[(t + 1) * c.OS + Frac(p, q, c.OS) + 1]
LineWeight(c, p, q) ==      \* over all taps, also those outside the grid
    IF c.conv = "nn" THEN 1
    ELSE SumTo(c.W, LAMBDA t : c.K[t * c.OS + Frac(p, q, c.OS) + 1])
Inside(c, p, q) == SumTo(c.npix, LAMBDA x : Tap(c, p, q, x - 1))

\* packing: tap t of phase s is stored at s * (W+2) + t
PackIndex(W, os, i) == (i % os) * (W + 2) + (i \div os)

\* --- Stokes conversion ------------------------------------------------------
\* twice the Stokes parameter: <<first, second, sign, times -i>>
To == [I_FROM_XXYY |-> <<1,2,1,FALSE>>,     I_FROM_XXXYYXYY |-> <<1,4,1,FALSE>>,
       I_FROM_RRLL |-> <<1,2,1,FALSE>>,     I_FROM_RRRLLRLL |-> <<1,4,1,FALSE>>,
       Q_FROM_XXYY |-> <<1,2,-1,FALSE>>,    Q_FROM_XXXYYXYY |-> <<1,4,-1,FALSE>>,
       Q_FROM_RRRLLRLL |-> <<2,3,1,FALSE>>, U_FROM_XYYX |-> <<1,2,1,FALSE>>,
       U_FROM_XXXYYXYY |-> <<2,3,1,FALSE>>, U_FROM_RLLR |-> <<1,2,-1,TRUE>>,
       U_FROM_RRRLLRLL |-> <<2,3,-1,TRUE>>, V_FROM_RRLL |-> <<1,2,-1,FALSE>>,
       V_FROM_RRRLLRLL |-> <<1,4,-1,FALSE>>, V_FROM_XYYX |-> <<1,2,-1,TRUE>>,
       V_FROM_XXXYYXYY |-> <<2,3,-1,TRUE>>]
Stokes2(pol, v) ==
    LET s == To[pol]
        x == CAdd(v[s[1]], CScale(s[3], v[s[2]])) IN
    IF s[4] THEN CMul(<<0, -1>>, x) ELSE x
O == <<0,0>>
P1 == <<1,0>>
M1 == <<-1,0>>
Pi1 == <<0,1>>
Mi1 == <<0,-1>>
From == [XXYY_FROM_I |-> <<P1,P1>>,  XXXYYXYY_FROM_I |-> <<P1,O,O,P1>>,
         RRLL_FROM_I |-> <<P1,P1>>,  RRRLLRLL_FROM_I |-> <<P1,O,O,P1>>,
         XXYY_FROM_Q |-> <<P1,M1>>,  XXXYYXYY_FROM_Q |-> <<P1,O,O,M1>>,
         RLLR_FROM_Q |-> <<P1,P1>>,  RRRLLRLL_FROM_Q |-> <<O,P1,P1,O>>,
         XYYX_FROM_U |-> <<P1,P1>>,  XXXYYXYY_FROM_U |-> <<O,P1,P1,O>>,
         RLLR_FROM_U |-> <<Pi1,Mi1>>, RRRLLRLL_FROM_U |-> <<O,Pi1,Mi1,O>>,
         XYYX_FROM_V |-> <<Pi1,Mi1>>, XXXYYXYY_FROM_V |-> <<O,Pi1,Mi1,O>>,
         RRLL_FROM_V |-> <<P1,M1>>,  RRRLLRLL_FROM_V |-> <<P1,O,O,M1>>]

\* --- gridding ---------------------------------------------------------------
\* all samples of a facet: position, twice the Stokes value, band, row
Samples(c, f) ==
    [i \in 1..(Len(c.uvw) * Len(c.lam)) |->
        LET r == ((i - 1) \div Len(c.lam)) + 1
            ch == ((i - 1) % Len(c.lam)) + 1 IN
        [p |-> Position(c, f, r, ch), b |-> c.cm[ch], r |-> r,
         s |-> CMul(Quarter(Turns(c, f, r, ch)), Stokes2(c.pol, c.vis[r][ch]))]]
\* twice the grid value at (y, x), over the rows lo..hi
Grid2(c, S, b, y, x, lo, hi) ==
    CSumOver({i \in 1..Len(S) : S[i].b = b /\ lo <= S[i].r /\ S[i].r <= hi},
             LAMBDA i : CScale(Tap(c, S[i].p[2], S[i].p[3], y)
                               * Tap(c, S[i].p[1], S[i].p[3], x), S[i].s))
Weight(c, S, b, lo, hi) ==
    SumOver({i \in 1..Len(S) : S[i].b = b /\ lo <= S[i].r /\ S[i].r <= hi},
            LAMBDA i : LineWeight(c, S[i].p[2], S[i].p[3])
                       * LineWeight(c, S[i].p[1], S[i].p[3]))

\* --- degridding --------------------------------------------------------------
\* <<numerator, weight>> of facet number fi at a sample
Degrid(c, fi, r, ch) ==
    LET f == c.fac[fi]
        p == Position(c, f, r, ch)
        cells == {<<y, x>> \in (0..(c.npix - 1)) \X (0..(c.npix - 1)) :
                    Tap(c, p[2], p[3], y) * Tap(c, p[1], p[3], x) # 0} IN
    <<CMul(Quarter(- Turns(c, f, r, ch)),
           CSumOver(cells, LAMBDA q :
             CScale(Tap(c, p[2], p[3], q[1]) * Tap(c, p[1], p[3], q[2]),
                    c.grid[fi][c.cm[ch] + 1][q[1] + 1][q[2] + 1]))),
      MaxI(1, Inside(c, p[2], p[3]) * Inside(c, p[1], p[3]))>>

Flags(o) == Fail("dtype", o.dtype_ok) \cup Fail("metadata", o.meta_ok) \cup
            Fail("inputs-unchanged", o.inputs_ok)
NBand(c) == 1 + CHOOSE m \in {c.cm[i] : i \in DOMAIN c.cm} :
                  \A i \in DOMAIN c.cm : c.cm[i] <= m
GridVerdict(c, o) ==
    LET nb == NBand(c)
        off == Offsets(c.rch)
        shape == /\ Len(o.v) = Len(c.fac)
                 /\ \A f \in DOMAIN o.v : Len(o.v[f]) = nb /\ \A b \in 1..nb :
                      Len(o.v[f][b]) = c.npix /\ \A y \in 1..c.npix :
                         Len(o.v[f][b][y]) = c.npix IN
    IF ~shape THEN {"shape"} ELSE Flags(o) \cup
    Fail("grid", \A f \in DOMAIN c.fac :
      LET S == Samples(c, c.fac[f]) IN
      \A b \in 1..nb :
        LET lo(k) == off[k] + 1
            hi(k) == off[k] + c.rch[k]
            nk == Len(c.rch)
            wt(k) == IF c.norm THEN MaxI(1, Weight(c, S, b - 1, lo(k), hi(k))) ELSE 1
            wts == [k \in 1..nk |-> wt(k)]
            den == FoldLeft(LAMBDA acc, x : acc * x, 1, wts) IN
        \A y, x \in 1..c.npix :
          CNear(o.v[f][b][y][x],
                CSumTo(nk, LAMBDA k : CScale(den \div wts[k],
                         Grid2(c, S, b - 1, y - 1, x - 1, lo(k), hi(k)))),
                2 * nk * den, c.S, c.tol))
DegridVerdict(c, o) ==
    LET co == From[c.pol]
        nc == Len(co)
        shape == /\ Len(o.v) = Len(c.uvw)
                 /\ \A r \in DOMAIN o.v : Len(o.v[r]) = Len(c.lam) /\
                      \A ch \in DOMAIN c.lam : Len(o.v[r][ch]) = nc IN
    IF ~shape THEN {"shape"} ELSE Flags(o) \cup
    Fail("degridded", \A r \in DOMAIN c.uvw, ch \in DOMAIN c.lam :
      LET d == [fi \in DOMAIN c.fac |-> Degrid(c, fi, r, ch)]
          den == FoldLeft(LAMBDA acc, x : acc * x[2], 1, d)
          s == CSumTo(Len(d), LAMBDA fi : CScale(den \div d[fi][2], d[fi][1])) IN
      \A k \in 1..nc : CNear(o.v[r][ch][k], CMul(co[k], s), den, c.S, c.tol))

\* --- kernels -----------------------------------------------------------------
\* eighth turns as a + b * sqrt(2)/2
Eighth(k) == CASE k % 8 = 0 -> <<1, 0>>  [] k % 8 = 1 -> <<0, 1>>
               [] k % 8 = 2 -> <<0, 0>>  [] k % 8 = 3 -> <<0, -1>>
               [] k % 8 = 4 -> <<-1, 0>> [] k % 8 = 5 -> <<0, -1>>
               [] k % 8 = 6 -> <<0, 0>>  [] OTHER -> <<0, 1>>
\* squared modulus (a + b s)^2 + (c + d s)^2, s = sqrt(2)/2, as p + q*sqrt(2)
Modulus2(a, b, x, y) == <<2*a*a + b*b + 2*x*x + y*y, 2*(a*b + x*y)>>  \* times 2
DetaperLine(c, l) ==       \* times two, c.npix * c.OS = 8
    LET k(i) == (l - c.npix \div 2) * ((i - 1) - c.OS * ((c.W + 2) \div 2))
        n == Len(c.K)
        ac == SumTo(n, LAMBDA i : c.K[i] * Eighth(k(i))[1])
        bc == SumTo(n, LAMBDA i : c.K[i] * Eighth(k(i))[2])
        as == SumTo(n, LAMBDA i : c.K[i] * Eighth(2 - k(i))[1])
        bs == SumTo(n, LAMBDA i : c.K[i] * Eighth(2 - k(i))[2]) IN
    Modulus2(ac, bc, as, bs)
\* 4 x product of two squared moduli as p + q sqrt(2)
Times(m, n) == <<m[1]*n[1] + 2*m[2]*n[2], m[1]*n[2] + m[2]*n[1]>>
SqrtTwo(q) == (q * 577) \div 408
DetaperVerdict(c, o) ==
    IF ~(Len(o.v) = c.npix /\ \A m \in 1..c.npix : Len(o.v[m]) = c.npix) THEN {"shape"}
    ELSE Flags(o) \cup
    Fail("detaper", \A m, l \in 1..c.npix :
       LET t == Times(DetaperLine(c, m - 1), DetaperLine(c, l - 1))
           x == t[1] + SqrtTwo(t[2]) IN
       Abs(4 * o.v[m][l] - x) <= 8 + (Abs(t[2]) \div 100000) + (Abs(t[1]) \div 100000))
PackVerdict(c, o) ==
    LET n == Len(c.K) IN
    Flags(o) \cup Fail("pack", Len(o.packed) = n /\ \A i \in 1..n :
             o.packed[PackIndex(c.W, c.OS, i - 1) + 1] = c.K[i]) \cup
    Fail("unpack", o.back = c.K)
\* generated windows: unit sum, symmetric, largest at the origin
WindowVerdict(c, o) ==
    LET n == c.OS * (c.W + 2)
        mid == c.OS * ((c.W + 2) \div 2) + 1 IN
    IF Len(o.v) # n THEN {"window-length"}
    ELSE Fail("unit-sum", Abs(SumSeq(o.v) - c.S) <= n) \cup
         Fail("symmetric", \A d \in 0..(MinI(mid - 1, n - mid)) :
                Abs(o.v[mid - d] - o.v[mid + d]) <= 1) \cup
         Fail("peak-at-origin", c.k = "hanningsinc" \/ \A i \in 1..n : o.v[i] <= o.v[mid])

PPVerdict(c, o, e) ==
    IF c.must # "" THEN Fail("must-raise-" \o c.must, e = c.must)
    ELSE IF e # "" THEN {"raised", e}
    ELSE CASE c.fn = "grid" -> GridVerdict(c, o)
           [] c.fn = "degrid" -> DegridVerdict(c, o)
           [] c.fn = "detaper" -> DetaperVerdict(c, o)
           [] c.fn = "pack" -> PackVerdict(c, o)
           [] OTHER -> WindowVerdict(c, o)
=============================================================================

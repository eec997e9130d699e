-------------------------------- MODULE Rime --------------------------------
(* The measurement equation  V = G_p (B + sum_s E_ps X_s E_qs^H) G_q^H      *)
(* over Gaussian integers, and the reductions over source chunks that the   *)
(* chunked form may use.                                                    *)
(*                                                                          *)
(* Correlations are a sequence: 1 or 2 entries multiply element-wise, 4     *)
(* entries with c.full form a 2x2 matrix <<xx, xy, yx, yy>>.                *)
EXTENDS Num

MMul(a, b) == << CAdd(CMul(a[1], b[1]), CMul(a[2], b[3])),
                 CAdd(CMul(a[1], b[2]), CMul(a[2], b[4])),
                 CAdd(CMul(a[3], b[1]), CMul(a[4], b[3])),
                 CAdd(CMul(a[3], b[2]), CMul(a[4], b[4])) >>
MHerm(a) == << CConj(a[1]), CConj(a[3]), CConj(a[2]), CConj(a[4]) >>

JMul(full, a, b) == IF full THEN MMul(a, b)
                    ELSE [k \in 1..Len(a) |-> CMul(a[k], b[k])]
JHerm(full, a) == IF full THEN MHerm(a) ELSE [k \in 1..Len(a) |-> CConj(a[k])]
JAdd(a, b) == [k \in 1..Len(a) |-> CAdd(a[k], b[k])]
JZero(n) == [k \in 1..n |-> CZero]
Sandwich(full, l, x, r) == JMul(full, JMul(full, l, x), JHerm(full, r))

-----------------------------------------------------------------------------
(* One recorded call.  Time indices are local to a row chunk: row r of      *)
(* chunk k uses the Jones terms of time chunk k at its time index minus the *)
(* smallest time index of the chunk.                                        *)
RowChunk(c, r) == CHOOSE k \in 1..Len(c.rch) :
                     LET o == Offsets(c.rch)[k] IN r > o /\ r <= o + c.rch[k]
ChunkMin(c, k) == LET o == Offsets(c.rch)[k] IN
                  Min({c.ti[r] : r \in (o + 1)..(o + c.rch[k])})
\* 1-based index along the global time axis
TimeOf(c, r) == LET k == RowChunk(c, r) IN
                Offsets(c.tch)[k] + c.ti[r] - ChunkMin(c, k) + 1

Source(c, s, r, f) ==
    LET t == TimeOf(c, r)
        p == c.a1[r] + 1
        q == c.a2[r] + 1 IN
    IF c.hasE /\ c.hasX THEN
        Sandwich(c.full, c.E1[s][t][p][f], c.X[s][r][f], c.E2[s][t][q][f])
    ELSE IF c.hasE THEN
        JMul(c.full, c.E1[s][t][p][f], JHerm(c.full, c.E2[s][t][q][f]))
    ELSE c.X[s][r][f]

Sky(c, r, f) ==
    LET n == c.ncorr
        srcs == IF c.hasE \/ c.hasX
                THEN FoldLeft(LAMBDA acc, s : JAdd(acc, Source(c, s, r, f)),
                              JZero(n), [s \in 1..c.nsrc |-> s])
                ELSE JZero(n)
    IN IF c.hasB THEN JAdd(srcs, c.B[r][f]) ELSE srcs

Vis(c, r, f) ==
    IF ~c.hasG THEN Sky(c, r, f)
    ELSE LET t == TimeOf(c, r) IN
         Sandwich(c.full, c.G1[t][c.a1[r] + 1][f], Sky(c, r, f),
                  c.G2[t][c.a2[r] + 1][f])

PredictVerdict(c, o, e) ==
    IF c.must # "" THEN Fail("must-raise-" \o c.must, e = c.must)
    ELSE IF e # "" THEN {"raised", e}
    ELSE IF ~(/\ Len(o.vis) = c.nrow
              /\ \A r \in 1..c.nrow : Len(o.vis[r]) = c.nchan /\
                    \A f \in 1..c.nchan : Len(o.vis[r][f]) = c.ncorr)
    THEN {"shape"}
    ELSE Fail("visibility", \A r \in 1..c.nrow, f \in 1..c.nchan :
                  o.vis[r][f] = Vis(c, r, f)) \cup
         Fail("integral", o.integral) \cup
         Fail("dtype", o.dtype_ok) \cup
         Fail("inputs-unchanged", o.inputs_ok) \cup
         Fail("metadata", o.meta_ok)
=============================================================================

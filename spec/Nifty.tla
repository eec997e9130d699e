-------------------------------- MODULE Nifty --------------------------------
(* Gridding of visibilities per correlation: a sum over the unflagged        *)
(* samples in range, each in its cell; degridding reads the cells.  How the  *)
(* rows are chunked and how many streams accumulate them does not matter.    *)
EXTENDS Num

Nu(c) == c.nx + 1
Nv(c) == c.ny + 2
Mod(a, m) == ((a % m) + m) % m
U(c, r, f) == Mod(c.uvw[r][1]*c.freq[f], Nu(c)) + 1
V(c, r, f) == Mod(c.uvw[r][2]*c.freq[f], Nv(c)) + 1
Selected(c, r, f, p) ==
    /\ c.flag[r][f][p] = 0
    /\ c.w[1] <= c.uvw[r][3]*c.freq[f] /\ c.uvw[r][3]*c.freq[f] < c.w[2]
GridAt(c, p, u, v) ==
    CSumOver({x \in (1..c.nrow) \X (1..c.nchan) :
                Selected(c, x[1], x[2], p) /\ U(c, x[1], x[2]) = u /\
                V(c, x[1], x[2]) = v},
             LAMBDA x : CScale(c.wgt[x[1]][x[2]][p], c.vis[x[1]][x[2]][p]))
Taper(c, i, j) == i*c.cs[1] + 3*j*c.cs[2]

GridVerdict(c, o, e) ==
    IF c.must # "" THEN Fail("must-raise-ValueError", e = c.must)
    ELSE IF e # "" THEN {"raised", e}
    ELSE Fail("grid", \A p \in 1..c.ncorr, u \in 1..Nu(c), v \in 1..Nv(c) :
                         o.a[p][u][v] = GridAt(c, p, u, v)) \cup
         Fail("dirty", \A p \in 1..c.ncorr, i \in 1..c.nx, j \in 1..c.ny :
                         o.b[p][i][j] =
                            Taper(c, i, j)*GridAt(c, p, i, j)[1]) \cup
         Fail("shape", Len(o.a) = c.ncorr /\ Len(o.b) = c.ncorr /\
                       \A p \in 1..Len(o.a) : Len(o.a[p]) = Nu(c) /\
                          \A u \in 1..Nu(c) : Len(o.a[p][u]) = Nv(c)) \cup
         Fail("inputs-unchanged", o.inputs_ok) \cup
         Fail("declared-metadata", o.meta_ok)

ModelAt(c, p, u, v) ==
    IF u <= c.nx /\ v <= c.ny
    THEN <<Taper(c, u, v)*c.img[u][v][p], 0>> ELSE CZero
DegridVerdict(c, o, e) ==
    IF c.must # "" THEN Fail("must-raise-ValueError", e = c.must)
    ELSE IF e # "" THEN {"raised", e}
    ELSE Fail("model", \A p \in 1..c.ncorr, u \in 1..Nu(c), v \in 1..Nv(c) :
                         o.a[p][u][v] = ModelAt(c, p, u, v)) \cup
         Fail("degrid", \A r \in 1..c.nrow, f \in 1..c.nchan,
                           p \in 1..c.ncorr :
                         o.b[r][f][p] =
                           IF Selected(c, r, f, p)
                           THEN ModelAt(c, p, U(c, r, f), V(c, r, f))
                           ELSE CZero) \cup
         Fail("shape", Len(o.a) = c.ncorr /\ Len(o.b) = c.nrow) \cup
         Fail("inputs-unchanged", o.inputs_ok) \cup
         Fail("declared-metadata", o.meta_ok)

ConfigVerdict(c, o, e) ==
    IF e # "" THEN {"raised", e}
    ELSE Fail("values", o.values) \cup Fail("pickled", o.pickled) \cup
         Fail("token-of-equal", o.same_token) \cup
         Fail("token-of-different", o.other_token)

NiftyVerdict(c, o, e) ==
    CASE c.fn = "grid" -> GridVerdict(c, o, e)
      [] c.fn = "degrid" -> DegridVerdict(c, o, e)
      [] c.fn = "config" -> ConfigVerdict(c, o, e)

\* the streams of nb blocks: runs of consecutive blocks, at most st of them
PerStream(nb, st) == (nb + st - 1) \div st
Opens(b, nb, st) == b % PerStream(nb, st) = 0
Ends(b, nb, st) == b = nb - 1 \/ (b + 1) % PerStream(nb, st) = 0
=============================================================================

------------------------------- MODULE Region --------------------------------
(* Regions of an image: convex hulls and axis aligned boxes of lattice      *)
(* points <<x, y>>, their pixel masks <<y, x>> with weights, and the        *)
(* operations that split, pad, extract and coadd them.  Weights are held    *)
(* in units of 1/S.                                                         *)
EXTENDS Num

Side(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
\* an edge line of the hull of P: every point on one side of it
Supports(P) == {ab \in P \X P : ab[1] # ab[2] /\ \A q \in P : Side(ab[1], ab[2], q) >= 0}
InAll(Sup, p) == \A ab \in Sup : Side(ab[1], ab[2], p) >= 0
MinX(P) == LET q == CHOOSE q \in P : \A r \in P : q[1] <= r[1] IN q[1]
MaxX(P) == LET q == CHOOSE q \in P : \A r \in P : q[1] >= r[1] IN q[1]
MinY(P) == LET q == CHOOSE q \in P : \A r \in P : q[2] <= r[2] IN q[2]
MaxY(P) == LET q == CHOOSE q \in P : \A r \in P : q[2] >= r[2] IN q[2]
Window(P) == [xl |-> MinX(P), xu |-> MaxX(P), yl |-> MinY(P), yu |-> MaxY(P)]
Pixels(w) == {<<y, x>> : y \in w.yl..w.yu, x \in w.xl..w.xu}
\* all pixels <<y, x>> within the hull of the points P
HullMask(P) == LET Sup == TLCEval(Supports(P)) IN TLCEval({p \in Pixels(Window(P)) : InAll(Sup, <<p[2], p[1]>>)})
Sx(w) == w.xu - w.xl + 1
Sy(w) == w.yu - w.yl + 1
WPts(w) == {<<w.xl, w.yl>>, <<w.xl, w.yu>>, <<w.xu, w.yl>>, <<w.xu, w.yu>>}
Within(v, w) == w.xl <= v.xl /\ v.xu <= w.xu /\ w.yl <= v.yl /\ v.yu <= w.yu
\* a region as given: [t, pts, um, hasm]; a box lists its corner points too
Pts(r) == ToSet(r.pts)
UserMask(r) == IF r.hasm THEN ToSet(r.um) \cap HullMask(Pts(r)) ELSE HullMask(Pts(r))

\* the hulls of P and Q are further than sep = sn/sd apart along some edge normal
Dot(n, p) == n[1] * p[1] + n[2] * p[2]
Lo(n, P) == LET q == CHOOSE q \in P : \A r \in P : Dot(n, q) <= Dot(n, r) IN Dot(n, q)
Hi(n, P) == LET q == CHOOSE q \in P : \A r \in P : Dot(n, q) >= Dot(n, r) IN Dot(n, q)
Normals(P) == {<<ab[1][2] - ab[2][2], ab[2][1] - ab[1][1]>> : ab \in Supports(P)}
Gap(n, P, Q) == MaxI(Lo(n, Q) - Hi(n, P), Lo(n, P) - Hi(n, Q))
Separated(P, Q, sn, sd) ==
    \E n \in Normals(P) \cup Normals(Q) :
        LET g == Gap(n, P, Q) IN g > 0 /\ g * g * sd * sd > sn * sn * Dot(n, n)

\* mask weights: a function from the pixels of the mask
Ones(M, S) == TLCEval([p \in M |-> S])
Count(ws, rs, p) == Cardinality({r \in rs : p \in DOMAIN ws[r]})
\* normalise the masks of the regions rs among each other
Normal(ws, rs, only, S) ==
    TLCEval([r \in DOMAIN ws |-> IF r \notin rs THEN ws[r] ELSE
        [p \in DOMAIN ws[r] |->
            LET n == Count(ws, rs, p) IN
            IF only /\ n = 1 THEN ws[r][p] ELSE S \div n]])
Step(regs, ws, op, S) == TLCEval(
    CASE op.op = "set" -> [ws EXCEPT ![op.r] = Ones(ToSet(op.m) \cap HullMask(Pts(regs[op.r])), S)]
      [] op.op = "reset" -> [ws EXCEPT ![op.r] = Ones(HullMask(Pts(regs[op.r])), S)]
      [] op.op = "norm" -> Normal(ws, ToSet(op.rs), op.only, S)
      [] OTHER -> ws)
FilledOk(w, ws, v) ==
    /\ Len(v) = Sy(w)
    /\ \A j \in DOMAIN v :
        /\ Len(v[j]) = Sx(w)
        /\ \A i \in DOMAIN v[j] :
             LET p == <<w.yl + j - 1, w.xl + i - 1>> IN
             v[j][i] = IF p \in DOMAIN ws THEN ws[p] ELSE 0
SparseOk(ws, m) == Len(m) = Cardinality(DOMAIN ws) /\ ToSet(m) = DOMAIN ws
WeightsOk(ws, m, v) == Len(v) = Len(m) /\ \A i \in DOMAIN m : v[i] = ws[m[i]]

\* parts: windows that tile w, no larger than the n-th part of it
Ceil(a, n) == (a + n - 1) \div n
SplitOk(w, n, parts) ==
    /\ Len(parts) <= n * n
    /\ \A k \in DOMAIN parts : /\ Within(parts[k], w)
                               /\ Sx(parts[k]) \in 1..Ceil(Sx(w), n)
                               /\ Sy(parts[k]) \in 1..Ceil(Sy(w), n)
    /\ \A p \in Pixels(w) : Cardinality({k \in DOMAIN parts : p \in Pixels(parts[k])}) = 1
PadOk(w, nx, ny, v) ==
    /\ Within(w, v) /\ Sx(v) = nx /\ Sy(v) = ny
    /\ (w.xl - v.xl) - (v.xu - w.xu) \in -2..2
    /\ (w.yl - v.yl) - (v.yu - w.yu) \in -2..2
Odd(n, odd) == IF odd /\ n % 2 = 0 THEN n + 1 ELSE n
BoundOk(w, square, odd, v) ==
    /\ Within(w, v)
    /\ Sx(v) = Odd(IF square THEN MaxI(Sx(w), Sy(w)) ELSE Sx(w), odd)
    /\ Sy(v) = Odd(IF square THEN MaxI(Sx(w), Sy(w)) ELSE Sy(w), odd)

\* one plane of an image d (rows are y) cut out with the weights ws
FILL == -999999
InImage(d, p) == p[1] \in 0..(Len(d) - 1) /\ p[2] \in 0..(Len(d[1]) - 1)
CutOk(w, ws, d, v, fill) ==
    /\ Len(v) = Sy(w)
    /\ \A j \in DOMAIN v :
        /\ Len(v[j]) = Sx(w)
        /\ \A i \in DOMAIN v[j] :
             LET p == <<w.yl + j - 1, w.xl + i - 1>> IN
             v[j][i] = IF p \in DOMAIN ws /\ InImage(d, p)
                       THEN d[p[1] + 1][p[2] + 1] * ws[p] ELSE fill
Outside(w, d) == w.xl >= Len(d[1]) \/ w.yl >= Len(d) \/ w.xu < 0 \/ w.yu < 0

\* the sum of the cut outs ds at windows vs
Union(vs) == [xl |-> MinX({<<v.xl, 0>> : v \in ToSet(vs)}), xu |-> MaxX({<<v.xu, 0>> : v \in ToSet(vs)}),
              yl |-> MinY({<<0, v.yl>> : v \in ToSet(vs)}), yu |-> MaxY({<<0, v.yu>> : v \in ToSet(vs)})]
At(v, d, p) == IF p \in Pixels(v)
               THEN LET a == d[p[1] - v.yl + 1][p[2] - v.xl + 1] IN IF a = FILL THEN 0 ELSE a
               ELSE 0
RECURSIVE SumAt(_, _, _, _)
SumAt(vs, ds, p, k) == IF k = 0 THEN 0 ELSE At(vs[k], ds[k], p) + SumAt(vs, ds, p, k - 1)
StitchOk(vs, ds, u, out) ==
    /\ Len(out) = Sy(u)
    /\ \A j \in DOMAIN out :
        /\ Len(out[j]) = Sx(u)
        /\ \A i \in DOMAIN out[j] :
             out[j][i] = SumAt(vs, ds, <<u.yl + j - 1, u.xl + i - 1>>, Len(vs))

------------------------------------------------------------------------------
Win(b) == [xl |-> b[1], xu |-> b[2], yl |-> b[3], yu |-> b[4]]
WinSeq(b) == [k \in DOMAIN b |-> Win(b[k])]
RECURSIVE Replay(_, _, _, _, _)
Replay(c, o, ws, k, i) ==
    IF k > Len(c.ops) THEN {}
    ELSE LET op == c.ops[k] IN
         IF op.op = "read"
         THEN LET w == Window(Pts(c.regs[op.r]))
                  x == o.reads[i] IN
              Fail("filled-mask", FilledOk(w, ws[op.r], x.filled)) \cup
              Fail("sparse-mask", SparseOk(ws[op.r], x.sparse)) \cup
              (IF SparseOk(ws[op.r], x.sparse)
               THEN Fail("weights", WeightsOk(ws[op.r], x.sparse, x.w)) ELSE {}) \cup
              Replay(c, o, ws, k + 1, i + 1)
         ELSE Replay(c, o, TLCEval(Step(c.regs, ws, op, c.S)), k + 1, i)
Begin(c) == TLCEval([r \in DOMAIN c.regs |-> Ones(UserMask(c.regs[r]), c.S)])
ExtractVerdict(c, o) ==
    LET w == Window(Pts(c.regs[1]))
        ws == Normal(Begin(c), DOMAIN c.regs, TRUE, c.S)[1] IN
    Fail("extent", o.ext = <<w.xl, w.xu, w.yl, w.yu>>) \cup
    Fail("planes", Len(o.v) = Len(c.data)) \cup
    Fail("cut-out", \A k \in DOMAIN o.v : CutOk(w, ws, c.data[k], o.v[k], c.fill)) \cup
    Fail("inputs-unchanged", o.inputs_ok)
FacetVerdict(c, o) ==
    \* cut out with normalised weights and coadded: the image again
    LET vs == [k \in DOMAIN c.regs |-> Window(Pts(c.regs[k]))]
        u == Union(vs)
        M == UNION {UserMask(c.regs[k]) : k \in DOMAIN c.regs} IN
    Fail("extent", o.ext = <<u.xl, u.xu, u.yl, u.yu>>) \cup
    Fail("coadded", \A k \in DOMAIN c.data : CutOk(u, Ones(M, c.S), c.data[k], o.v[k], 0)) \cup
    Fail("mask", ToSet(o.mask) = M)
(* The outline: corners wound clockwise, edges from each corner to the     *)
(* next, their midpoints (recorded doubled) and normals.                    *)
OutlineOk(P, o) ==
    LET C == o.corners
        n == Len(C)
        Cn(i) == C[((i - 1) % n) + 1]
        Dx(i) == Cn(i + 1)[1] - Cn(i)[1]
        Dy(i) == Cn(i + 1)[2] - Cn(i)[2] IN
    /\ n >= 3 /\ Len(o.edges) = n /\ Len(o.mids) = n
    /\ Len(o.normals[1]) = n /\ Len(o.normals[2]) = n
    /\ Cardinality({Cn(i) : i \in 1..n}) = n /\ {Cn(i) : i \in 1..n} \subseteq P
    /\ \A i \in 1..n :
         /\ \A q \in P : Side(Cn(i), Cn(i + 1), q) <= 0
         /\ o.edges[i] = <<Cn(i), Cn(i + 1)>>
         /\ o.mids[i] = <<Cn(i)[1] + Cn(i + 1)[1], Cn(i)[2] + Cn(i + 1)[2]>>
         /\ o.normals[1][i] = <<-Dy(i), Dx(i)>>
         /\ o.normals[2][i] = <<Dy(i), -Dx(i)>>
\* the whole pixel of the mean of the points, towards zero
TruncDiv(a, n) == IF a >= 0 THEN a \div n ELSE -((-a) \div n)
CentreOk(pts, v) == \A k \in 1..2 :
    v[k] = TruncDiv(SumTo(Len(pts), LAMBDA i : pts[i][k]), Len(pts))
RegionVerdict(c, o, e) ==
    IF c.must # "" THEN Fail("must-raise-" \o c.must, e = c.must)
    ELSE IF c.fn = "extract" /\ Outside(Window(Pts(c.regs[1])), c.data[1])
    THEN Fail("must-raise-ValueError", e = "ValueError")
    ELSE IF e # "" THEN {"raised", e}
    ELSE CASE c.fn = "hull" ->
               LET P == Pts(c.regs[1])
                   w == Window(P)
                   ws == Begin(c)[1] IN
               Fail("sparse-mask", SparseOk(ws, o.sparse)) \cup
               Fail("filled-mask", FilledOk(w, ws, o.filled)) \cup
               Fail("nested", SparseOk(Ones(HullMask(P), 1), o.nested)) \cup
               Fail("outline", OutlineOk(P, o)) \cup
               Fail("centre", CentreOk(c.regs[1].pts, o.centre)) \cup
               Fail("contains", LET Sup == Supports(P) IN
                    \A i \in DOMAIN o.probe : o.probe[i][3] = InAll(Sup, <<o.probe[i][1], o.probe[i][2]>>)) \cup
               (IF c.regs[1].t = "box" THEN
                Fail("box-size", o.npx = <<Sx(w), Sy(w)>>) \cup
                Fail("box-area", o.area = Sx(w) * Sy(w)) ELSE {})
           [] c.fn = "overlap" ->
               Fail("overlap", o.v = ~Separated(Pts(c.regs[1]), Pts(c.regs[2]), c.sep[1], c.sep[2])) \cup
               Fail("symmetric", o.v = o.w)
           [] c.fn = "ops" -> Replay(c, o, Begin(c), 1, 1)
           [] c.fn = "extract" -> ExtractVerdict(c, o)
           [] c.fn = "facet" -> FacetVerdict(c, o)
           [] c.fn = "split" ->
               LET w == Window(Pts(c.regs[1]))
                   vs == WinSeq(o.boxes) IN
               Fail("tiles", SplitOk(w, c.n, vs)) \cup
               Fail("masks", \A k \in DOMAIN vs :
                    SparseOk(Ones(UserMask(c.regs[1]) \cap Pixels(vs[k]), 1), o.masks[k]))
           [] c.fn = "pad" ->
               Fail("padded", PadOk(Window(Pts(c.regs[1])), c.want[1], c.want[2], Win(o.box))) \cup
               Fail("mask", SparseOk(Begin(c)[1], o.mask)) \cup Fail("box-size", o.npx = c.want)
           [] c.fn = "bound" ->
               LET w == Window(Pts(c.regs[1])) IN
               Fail("bounding-box", BoundOk(w, c.square, c.odd, Win(o.box))) \cup
               Fail("mask", SparseOk(Begin(c)[1], o.mask))
           [] c.fn = "project" ->
               LET vs == [k \in DOMAIN c.regs |-> Window(Pts(c.regs[k]))]
                   u == Union(vs) IN
               Fail("extent", o.ext = <<u.xl, u.xu, u.yl, u.yu>>) \cup
               Fail("stitched", \A f \in DOMAIN o.v :
                    StitchOk(vs, [k \in DOMAIN vs |-> c.parts[k][f]], u, o.v[f])) \cup
               Fail("mask", ToSet(o.mask) = UNION {UserMask(c.regs[k]) : k \in DOMAIN c.regs}) \cup
               Fail("type", o.dtype_ok) \cup
               Fail("inputs-unchanged", o.inputs_ok)
=============================================================================

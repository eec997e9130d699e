--------------------------------- MODULE Dft ---------------------------------
(* Image <-> visibility transforms on a lattice where every phase is a      *)
(* multiple of a quarter turn.                                              *)
(*                                                                          *)
(* c.px[s] = <<x, y, z, a>> : direction of source s in lattice units, with  *)
(*    z the (n - 1) coordinate and a = 12/n when the transform divides by n *)
(*    (12 otherwise);  c.uvw[r] baseline coordinates; c.fm[f] frequency.    *)
(* c.band[f] selects the image plane of channel f (0: no plane).            *)
EXTENDS Num

Turn(c, r, f, s) == c.fm[f] * (c.uvw[r][1] * c.px[s][1]
                               + c.uvw[r][2] * c.px[s][2]
                               + c.wsign * c.uvw[r][3] * c.px[s][3])
\* sign -1 is the e^{-2 pi i} convention from image to visibility
Kernel(c, r, f, s) == Quarter(- c.conv * Turn(c, r, f, s))

Used(c, r, f) == IF c.hasF THEN c.use[r][f] # 0 ELSE TRUE
Wgt(c, r, f) == IF c.hasW THEN c.wgt[r][f] ELSE 1

\* 12 x visibility of the model image (real or complex image planes)
Model12(c, r, f, k) ==
    IF c.band[f] = 0 THEN CZero
    ELSE CSumTo(Len(c.px), LAMBDA s :
           CScale(c.px[s][4], CMul(Kernel(c, r, f, s),
                                   c.im[s][c.band[f]][k])))
\* 12 x image plane b of visibilities vis12(r,f,k)/vden
Dirty12(c, s, b, k, V(_, _, _)) ==
    c.px[s][4] *
    SumOver({<<r, f>> \in (1..c.nrow) \X (1..c.nchan) :
                c.band[f] = b /\ Used(c, r, f)},
            LAMBDA z : Wgt(c, z[1], z[2]) *
              CMul(CConj(Kernel(c, z[1], z[2], s)), V(z[1], z[2], k))[1])

Vis(c, r, f, k) == c.vis[r][f][k]
Common(o) == Fail("dtype", o.dtype_ok) \cup Fail("metadata", o.meta_ok) \cup
             Fail("inputs-unchanged", o.inputs_ok)
VisShape(c, v) == Len(v) = c.nrow /\ \A r \in 1..c.nrow :
    Len(v[r]) = c.nchan /\ \A f \in 1..c.nchan : Len(v[r][f]) = c.ncorr
ImShape(c, v) == Len(v) = Len(c.px) /\ \A s \in 1..Len(c.px) :
    Len(v[s]) = c.nband /\ \A b \in 1..c.nband : Len(v[s][b]) = c.ncorr

\* image -> visibilities; weights multiply and unused samples are zero
ModelVerdict(c, o) ==
    IF ~VisShape(c, o.vis) THEN {"shape"}
    ELSE Fail("visibilities", \A r \in 1..c.nrow, f \in 1..c.nchan :
           \A k \in 1..c.ncorr :
             CNear(o.vis[r][f][k],
                   IF Used(c, r, f)
                   THEN CScale(Wgt(c, r, f), Model12(c, r, f, k)) ELSE CZero,
                   12, c.S, c.tol))
ImageIs(c, o, V(_, _, _), den) ==
    IF ~ImShape(c, o.im) THEN {"shape"}
    ELSE Fail("image", \A s \in 1..Len(c.px), b \in 1..c.nband :
           \A k \in 1..c.ncorr :
             Near(o.im[s][b][k], Dirty12(c, s, b, k, V), 12 * den,
                  c.S, c.tol))
DirtyVerdict(c, o) == ImageIs(c, o, LAMBDA r, f, k : Vis(c, r, f, k), 1)
ResidVerdict(c, o) ==
    ImageIs(c, o, LAMBDA r, f, k :
        CSub(CScale(12, Vis(c, r, f, k)), Model12(c, r, f, k)), 12)
HessVerdict(c, o) ==
    ImageIs(c, o, LAMBDA r, f, k : Model12(c, r, f, k), 12)

DftVerdict(c, o, e) ==
    IF c.must # "" THEN Fail("must-raise-" \o c.must, e = c.must)
    ELSE IF e # "" THEN {"raised", e}
    ELSE Common(o) \cup
         (CASE c.fn = "model" -> ModelVerdict(c, o)
            [] c.fn = "dirty" -> DirtyVerdict(c, o)
            [] c.fn = "residual" -> ResidVerdict(c, o)
            [] c.fn = "hessian" -> HessVerdict(c, o))
=============================================================================

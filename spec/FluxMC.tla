------------------------------- MODULE FluxMC -------------------------------
(* Design check of the sky model algebra: a model grows source by source.   *)
(* Theorems: a spectrum passes through I at its reference frequency in every *)
(* base; all bases agree on a single index; shapes are 1 at the origin, at  *)
(* most 1, even, and turning the ellipse by 90 degrees swaps its axes;      *)
(* prediction is additive over sources and Hermitian in uvw.  Emits the     *)
(* sequences of source kinds to run.                                        *)
EXTENDS Flux
CONSTANTS NSrc
Angles == {<<1,0,1>>, <<0,1,1>>, <<-1,0,1>>, <<0,-1,1>>}
Gs == {[maj |-> a, min |-> b, ang |-> x] : a \in {0, 2}, b \in {0, 1}, x \in Angles}
Srcs == {<<0,0,1,1>>, <<0,3,4,5>>}
VARIABLES src, type, g, I, coef, log, ref, uv
vars == <<src, type, g, I, coef, log, ref, uv>>
Model(n, w) == [src |-> SubSeq(src, n[1], n[2]), type |-> SubSeq(type, n[1], n[2]),
    g |-> SubSeq(g, n[1], n[2]), I |-> SubSeq(I, n[1], n[2]),
    coef |-> SubSeq(coef, n[1], n[2]), log |-> SubSeq(log, n[1], n[2]),
    ref |-> SubSeq(ref, n[1], n[2]), fr |-> <<0, 1, 2>>, D |-> 5, uvw |-> <<w>>]
Init == /\ src = <<>> /\ type = <<>> /\ g = <<>> /\ I = <<>> /\ coef = <<>>
        /\ log = <<>> /\ ref = <<>> /\ uv \in {<<0,0,0>>, <<1,0,2>>, <<-1,1,1>>}
Add == /\ Len(src) < NSrc
       /\ \E z \in Srcs, t \in {"POINT", "GAUSSIAN"}, h \in Gs, lg \in BOOLEAN,
             cs \in {<<1>>, <<2, 1>>}, rf \in 0..1 :
            /\ t = "POINT" => h = [maj |-> 0, min |-> 0, ang |-> <<1,0,1>>]
            /\ t = "GAUSSIAN" => cs = <<1>> /\ lg
            /\ src' = Append(src, z) /\ type' = Append(type, t)
            /\ g' = Append(g, h) /\ log' = Append(log, lg)
            /\ coef' = Append(coef, cs) /\ ref' = Append(ref, rf)
            /\ I' = Append(I, Len(I) + 1)
       /\ UNCHANGED uv
Next == Add
Spec == Init /\ [][Next]_vars
N == Len(src)
PassesThroughI == \A s \in 1..N : \A k \in {0} :
    /\ StdFlux(I[s], coef[s], k) = I[s] * Pow2(P)
    /\ LogFlux(I[s], coef[s], k) = I[s] * Pow2(P)
    /\ PolyFlux(I[s], coef[s], k) = I[s] * Pow2(P)
OneIndex == \A k \in -3..3, a \in -2..2 : StdFlux(3, <<a>>, k) = LogFlux(3, <<a>>, k)
Turned(h) == [maj |-> h.min, min |-> h.maj, ang |-> <<-h.ang[2], h.ang[1], h.ang[3]>>]
Shapes == \A s \in 1..N :
    /\ ShapeExp(g[s], 0, 0, 4) = 0
    /\ ShapeExp(g[s], uv[1], uv[2], 1) >= 0
    /\ ShapeExp(g[s], uv[1], uv[2], 1) = ShapeExp(g[s], -uv[1], -uv[2], 1)
    /\ ShapeExp(g[s], uv[1], uv[2], 2) = 4 * ShapeExp(g[s], uv[1], uv[2], 1)
    /\ ShapeExp(Turned(g[s]), uv[1], uv[2], 1) = ShapeExp(g[s], uv[1], uv[2], 1)
Additive == N > 0 => \A f \in 1..3 :
    Vis(Model(<<1, N>>, uv), 1, f) =
       CAdd(Vis(Model(<<1, N-1>>, uv), 1, f), Vis(Model(<<N, N>>, uv), 1, f))
Hermitian == \A f \in 1..3 :
    Vis(Model(<<1, N>>, <<-uv[1], -uv[2], -uv[3]>>), 1, f) =
       CConj(Vis(Model(<<1, N>>, uv), 1, f))
Emit == (N = NSrc /\ uv = <<0,0,0>>) =>
    EmitJson([type |-> type, log |-> log, ref |-> ref, coef |-> coef])
=============================================================================

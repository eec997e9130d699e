-------------------------------- MODULE PPMC ---------------------------------
(* Design check of the gridder.  A position walks across the grid in steps  *)
(* of 1/Q cell for every kernel width and oversampling: the taps used stay  *)
(* in the kernel, move with the position, and packing is a permutation that *)
(* finds the same tap.  For every facet the baseline rotation is            *)
(* orthonormal and its w axis is the facet direction, so rotating baselines *)
(* and shifting the phase centre agree.                                     *)
EXTENDS PP
CONSTANTS Widths, Overs, Q, Npix, NAng
Ang == << <<1,0,1>>, <<4,3,5>>, <<4,-3,5>>, <<3,4,5>>, <<12,5,13>>, <<3,-4,5>> >>
Angs == {Ang[i] : i \in 1..NAng}
VARIABLES W, OS, p, f, z
vars == <<W, OS, p, f, z>>
Init == /\ W \in Widths /\ OS \in Overs
        /\ p = - (Npix * Q) \div 2 - Q
        /\ f = << <<1,0,1>>, <<1,0,1>> >> /\ z = <<1,0,1>>
Walk == /\ p < (Npix * Q) \div 2 + Q /\ p' = p + 1 /\ UNCHANGED <<W, OS, f, z>>
Facet == /\ p = - (Npix * Q) \div 2 - Q /\ W = 3 /\ OS = 2
         /\ f = << <<1,0,1>>, <<1,0,1>> >> /\ z = <<1,0,1>>
         /\ f' \in Angs \X Angs /\ z' \in Angs /\ UNCHANGED <<W, OS, p>>
Next == Walk \/ Facet
Spec == Init /\ [][Next]_vars
KLen == OS * (W + 2)
c == [W |-> W, OS |-> OS, npix |-> Npix, conv |-> "conv",
      K |-> [i \in 1..KLen |-> i], z |-> z]
InKernel == \A t \in 0..(W - 1) :
    LET i == (t + 1) * OS + Frac(p, Q, OS) IN i >= 0 /\ i < KLen
\* the position is within half a cell of its centre tap; the kernel phase is
\* the distance rounded towards the cell
Centred == /\ Abs(2 * (Disc(p, Q) * Q - p)) <= Q
           /\ Abs(2 * Frac(p, Q, OS)) <= OS
Moves == \A x \in 0..(Npix - 2) : Tap(c, p + Q, Q, x + 1) = Tap(c, p, Q, x)
Packing == /\ {PackIndex(W, OS, i) : i \in 0..(KLen - 1)} = 0..(KLen - 1)
           /\ \A t \in 0..(W - 1) :      \* the address a packed kernel is read at
                LET fr == Frac(p, Q, OS)
                    a == t + (IF fr < 0 THEN 0 ELSE 1) + fr * (W + 2) IN
                a % KLen = PackIndex(W, OS, (t + 1) * OS + fr)
Orthonormal ==
    LET u == RotU(c, f)
        v == RotV(c, f)
        d == FDen(c, f) IN
    /\ Dot3(u, u) = d * d /\ Dot3(v, v) = d * d /\ Dot3(u, v) = 0
    /\ u[2]*v[3] - u[3]*v[2] = d * FL(c, f)
    /\ u[3]*v[1] - u[1]*v[3] = d * FM(c, f)
    /\ u[1]*v[2] - u[2]*v[1] = d * FN(c, f)
\* ties between cells and between kernel phases depend on rounding: not emitted
Sharp == LET t == (Disc(p, Q) * Q - p) * OS IN
         /\ 2 * Abs(Disc(p, Q) * Q - p) # Q
         /\ t = 0 \/ t % Q # 0
Emit == Sharp => EmitJson([W |-> W, OS |-> OS, p |-> p, q |-> Q])
=============================================================================

-------------------------------- MODULE SkyMC --------------------------------
(* Design checks of the lattices: phases compose, rotations are orthogonal  *)
(* and compose, interpolation weights are a partition of unity and the      *)
(* Zernike numerators respect the unit disc; one state per point.           *)
EXTENDS Sky

Angles == {<<1,0,1>>, <<0,1,1>>, <<-1,0,1>>, <<0,-1,1>>, <<3,4,5>>, <<4,3,5>>,
           <<-3,4,5>>, <<-4,-3,5>>, <<3,-4,5>>, <<4,-3,5>>}
VARIABLES k, q, ang, ang2, zp, bm
vars == <<k, q, ang, ang2, zp, bm>>

Init == /\ k \in -3..3 /\ q \in -2..2
        /\ ang \in Angles /\ ang2 \in Angles
        /\ zp \in {<<j, a, b>> : j \in {0, 3, 7, 10, 15, 20},
                   a \in {-4, -1, 0, 2, 3}, b \in {-3, 0, 1, 4}}
        /\ zp = <<0, 0, 0>> \/ (k = 0 /\ q = 0 /\ ang = <<1,0,1>> /\ ang2 = ang)
        /\ bm = 0
Next == bm < 3 /\ bm' = bm + 1 /\ UNCHANGED <<k, q, ang, ang2, zp>>
Spec == Init /\ [][Next]_vars

PhasesCompose == CMul(Quarter(k), Quarter(q)) = Quarter(k + q)
ConjIsInverse == CConj(Quarter(k)) = Quarter(-k)
Rot(x) == <<x[1], x[2]>>
RotationUnit == Sq(ang[1]) + Sq(ang[2]) = Sq(ang[3])
RotationsCompose ==
    LET z == CMul(Rot(ang), Rot(ang2)) IN
    Sq(z[1]) + Sq(z[2]) = Sq(ang[3]*ang2[3])
ZernikeBounded == Abs(ZernikeNum(zp[1], zp[2], zp[3])) <= 1024
\* interpolating a constant cube gives the constant, at any position
Cube == [lw |-> 3, mh |-> 2, step |-> <<1, 2>>, low |-> <<-1, 0>>,
         fmap |-> <<8, 10, 14>>, freq |-> <<4, 8, 9, 11, 14, 21>>,
         lm |-> << <<k, q>> >>, ang |-> << <<ang>> >>,
         pe |-> << << [f \in 1..6 |-> <<1, -1>>] >> >>,
         sc |-> << [f \in 1..6 |-> <<1 + bm, 2>>] >>,
         beam |-> [i \in 1..3 |-> [j \in 1..2 |-> [f \in 1..3 |->
                     << <<3, 4, 5>> >>]]]]
PartitionOfUnity ==
    zp[1] = 0 /\ zp[2] = 0 /\ zp[3] = 0 =>
    \A f \in 1..6 : LET x == BeamSum(Cube, 1, 1, 1, f, 1) IN
       x[1] = 5*3200 /\ x[2] = <<3*3200, 4*3200>>
=============================================================================

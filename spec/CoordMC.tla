------------------------------- MODULE CoordMC -------------------------------
(* Design check: direction cosines are unit vectors, the phase centre is    *)
(* (0, 0, 1), and right ascension and declination are recovered from them.  *)
(* Emits the angle triples of visible sources.                              *)
EXTENDS Coord
Cos == << <<1,0,1>>, <<0,1,1>>, <<-1,0,1>>, <<0,-1,1>>, <<3,4,5>>, <<4,3,5>>,
          <<-3,4,5>>, <<-4,-3,5>>, <<3,-4,5>>, <<4,-3,5>>, <<5,12,13>>,
          <<12,-5,13>>, <<-12,5,13>>, <<-5,-12,13>> >>
CONSTANTS NAng
All == {Cos[i] : i \in 1..NAng}
Dec == {x \in All : x[1] > 0}
VARIABLES a, b, z
vars == <<a, b, z>>
Init == a \in All /\ b \in Dec /\ z = <<1, 0, 1>>
Next == /\ z = <<1, 0, 1>> /\ z' \in Dec \ {<<1, 0, 1>>} /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
D == Den(a, b, z)
Unit == Sq(L(a, b, z)) + Sq(M(a, b, z)) + Sq(N(a, b, z)) = Sq(D)
Centre == (a = <<1, 0, 1>> /\ b = z) => L(a, b, z) = 0 /\ M(a, b, z) = 0 /\ N(a, b, z) = D
\* sin(dec) = m cos z + n sin z;  tan(ra) = l / (n cos z - m sin z)
RoundTrip ==
    /\ (M(a, b, z) * z[1] + N(a, b, z) * z[2]) * b[3] = b[2] * D * z[3]
    /\ LET x == N(a, b, z) * z[1] - M(a, b, z) * z[2]
           y == L(a, b, z) * z[3] IN
       /\ x * a[2] = y * a[1]
       /\ x * a[1] >= 0 /\ y * a[2] >= 0
Emit == N(a, b, z) > 0 => EmitJson([a |-> a, b |-> b, z |-> z])
=============================================================================

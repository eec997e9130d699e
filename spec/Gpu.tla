--------------------------------- MODULE Gpu ---------------------------------
(* A CUDA kernel launch: a grid of blocks of threads covers a space of       *)
(* elements; threads outside the space leave; the others load per-block      *)
(* data into shared memory, meet at a barrier and write their element.       *)
(* And the exchanges between the lanes of a warp (transpose, product of      *)
(* 2x2 matrices held one element per lane).                                  *)
EXTENDS Num

CeilDiv(d, b) == (d + b - 1) \div b

\* ---- exchanges between lanes --------------------------------------------
\* d[t][k]: register k of lane t (0-based); V a power of two
\* first and last horizontal rotation, vertical rotation in between
HRot(d, V, src(_, _)) ==
    [t \in 0..V-1 |-> [k \in 0..V-1 |-> d[src(t, k)][k]]]
VRot(d, V) ==
    [t \in 0..V-1 |-> [k \in 0..V-1 |-> d[t][(k - t + V) % V]]]
WarpTranspose(d, V) ==
    LET A(t, k) == (t + k) % V
        B(t, k) == (V - t + k + V) % V
    IN HRot(VRot(HRot(d, V, A), V), V, B)
Transpose(d, V) == [t \in 0..V-1 |-> [k \in 0..V-1 |-> d[k][t]]]

\* Reading N vectors of V elements, lane-contiguous, then transposing: every
\* lane gets the elements of one vector and every vector goes to one lane.
MulUp(n, V) == V*CeilDiv(n, V)
\* the flat element that lane number s reads into register k, -1 when none
Reads(s, k, n, V) == LET i == s + k*MulUp(n, V) IN IF i < V*n THEN i ELSE -1
Vector(s, n, V) ==
    LET g == s - (s % V)
        d == [t \in 0..V-1 |-> [k \in 0..V-1 |-> Reads(g + t, k, n, V)]]
    IN Transpose(d, V)[s % V]
Whole(n, V) ==
    \A i \in 0..n-1 :
       Cardinality({s \in 0..MulUp(n, V)-1 :
                      \A k \in 0..V-1 : Vector(s, n, V)[k] = i*V + k}) = 1
NoMix(n, V) ==
    \A s \in 0..MulUp(n, V)-1 :
       LET v == Vector(s, n, V) IN
         \/ \A k \in 0..V-1 : v[k] = -1
         \/ v[0] >= 0 /\ v[0] % V = 0 /\ \A k \in 0..V-1 : v[k] = v[0] + k

\* product of 2x2 matrices, element e in lane e, by shuffles
LaneMul(J, K) ==
    [e \in 0..3 |->
       LET odd == e % 2
           first == [l \in 0..3 |-> CMul(J[l], K[1 + (l % 2)])]
       IN CAdd(first[e + 1 - 2*odd], CMul(J[e], K[3*odd]))]
LaneMulCT(J, K) ==
    [e \in 0..3 |->
       LET odd == e % 2
           first == [l \in 0..3 |-> CMul(J[l], CConj(K[2 - (l % 2)]))]
       IN CAdd(first[e + 1 - 2*odd], CMul(J[e], CConj(K[3*odd])))]
Mat(J, K) ==
    [e \in 0..3 |-> CAdd(CMul(J[2*(e \div 2)], K[e % 2]),
                         CMul(J[2*(e \div 2) + 1], K[2 + (e % 2)]))]
MatCT(J, K) ==
    [e \in 0..3 |-> CAdd(CMul(J[2*(e \div 2)], CConj(K[2*(e % 2)])),
                         CMul(J[2*(e \div 2) + 1], CConj(K[2*(e % 2) + 1])))]
=============================================================================

------------------------------- MODULE KronMC --------------------------------
(* The factor by factor algorithm: multiply the leading axis, rotate it to  *)
(* the back, once per factor.  It must give the full product for every      *)
(* shape of factors.                                                        *)
EXTENDS Kron
CONSTANTS MaxD, MaxN
VARIABLES shp, x, d
vars == <<shp, x, d>>
M(k, r, c) == [i \in 1..r |-> [j \in 1..c |-> <<((k + 2 * i + 3 * j) % 5) - 2, ((i * j + k) % 3) - 1>>]]
K == [k \in DOMAIN shp |-> M(k, shp[k][1], shp[k][2])]
B == [j \in 1..NCols(K) |-> <<((3 * j) % 7) - 3, j % 2>>]
Shapes == UNION {[1..n -> (1..MaxN) \X (1..MaxN)] : n \in 1..MaxD}
Init == shp \in Shapes /\ x = B /\ d = 0
Next == /\ d < Len(shp) /\ d' = d + 1 /\ UNCHANGED shp
        /\ LET A == K[d + 1]
               n == Len(x) \div Cols(A) IN
           \* x seen as Cols(A) by n; result n by Rows(A), flattened
           x' = [p \in 1..(n * Rows(A)) |->
                 LET i == (p - 1) \div Rows(A)
                     a == (p - 1) % Rows(A) IN
                 CSumTo(Cols(A), LAMBDA j : CMul(A[a + 1][j], x[(j - 1) * n + i + 1]))]
Spec == Init /\ [][Next]_vars
Product == d = Len(shp) => x = MatVec(Full(K), B)
\* the Gram matrix of a Kronecker product of lower factors is the Kronecker
\* product of the Gram matrices
G(k, n) == [i \in 1..n |-> [j \in 1..n |-> IF j > i THEN CZero ELSE
              IF i = j THEN <<i + k, 0>> ELSE <<i - 2 * j, k - 2>>]]
Factor == d = 0 /\ (\A k \in DOMAIN shp : shp[k][1] = shp[k][2]) =>
    LET L == [k \in DOMAIN shp |-> G(k, shp[k][1])] IN
    /\ Lower(Full(L))
    /\ Gram(Full(L)) = Full([k \in DOMAIN L |-> Gram(L[k])])
Emit == d = 0 => EmitJson([shp |-> shp])
=============================================================================

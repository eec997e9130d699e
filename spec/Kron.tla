-------------------------------- MODULE Kron ---------------------------------
(* Kronecker products of matrices over the complex integers, Cholesky       *)
(* factors, and covariances of points.  A matrix is a sequence of rows of   *)
(* <<re, im>>.                                                              *)
EXTENDS Num
Rows(K) == Len(K)
Cols(K) == Len(K[1])
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
\* entry i, j (from 0) of K[1] x K[2] x ... : the last factor varies fastest
RECURSIVE Entry(_, _, _)
Entry(K, i, j) ==
    IF K = <<>> THEN COne
    ELSE LET n == Len(K)
             L == K[n] IN
         CMul(Entry(SubSeq(K, 1, n - 1), i \div Rows(L), j \div Cols(L)),
              L[(i % Rows(L)) + 1][(j % Cols(L)) + 1])
NRows(K) == Prod([k \in DOMAIN K |-> Rows(K[k])])
NCols(K) == Prod([k \in DOMAIN K |-> Cols(K[k])])
\* row i of the product times the vector b
RowDot(K, i, b) == CSumTo(NCols(K), LAMBDA j : CMul(Entry(K, i, j - 1), b[j]))
Full(K) == [i \in 1..NRows(K) |-> [j \in 1..NCols(K) |-> Entry(K, i - 1, j - 1)]]
MatVec(A, b) == [i \in 1..Rows(A) |-> CSumTo(Cols(A), LAMBDA j : CMul(A[i][j], b[j]))]
\* lower triangular L with real positive diagonal and L L^H
Gram(L) == [i \in DOMAIN L |-> [j \in DOMAIN L |->
              CSumTo(Len(L), LAMBDA k : CMul(L[i][k], CConj(L[j][k])))]]
Lower(L) == \A i \in DOMAIN L : /\ L[i][i][1] > 0 /\ L[i][i][2] = 0
                                /\ \A j \in DOMAIN L : j > i => L[i][j] = CZero
\* squared distance of two points
Dist2(p, q) == SumTo(Len(p), LAMBDA k : Sq(p[k] - q[k]))
MatNear(V, A, S, tol) ==
    /\ Len(V) = Rows(A)
    /\ \A i \in DOMAIN V : /\ Len(V[i]) = Cols(A)
                           /\ \A j \in DOMAIN V[i] : CNear(V[i][j], A[i][j], 1, S, tol)
KronVerdict(c, o, e) ==
    IF c.must # "" THEN Fail("must-raise-" \o c.must, e = c.must)
    ELSE IF e # "" THEN {"raised", e}
    ELSE Fail("inputs-unchanged", o.inputs_ok) \cup
      CASE c.fn = "size" -> Fail("size", o.v = NRows(c.K))
        [] c.fn \in {"matvec", "tensorvec"} ->
             (IF Len(o.v) # NRows(c.K) THEN {"shape"}
              ELSE Fail("product", \A i \in DOMAIN o.v :
                        CNear(o.v[i], RowDot(c.K, i - 1, c.b[1]), 1, c.S, c.tol)))
        [] c.fn \in {"matmat", "tensormat"} ->
             (IF Len(o.v) # Len(c.b) THEN {"shape"}
              ELSE Fail("product", \A m \in DOMAIN o.v :
                   /\ Len(o.v[m]) = NRows(c.K)
                   /\ \A i \in DOMAIN o.v[m] :
                        CNear(o.v[m][i], RowDot(c.K, i - 1, c.b[m]), 1, c.S, c.tol)))
        \* a factor larger than TLC would multiply out: a shift by one row
        [] c.fn = "shift" ->
             (IF Len(o.v) # c.n * Len(c.b) THEN {"shape"}
              ELSE Fail("product", \A i \in DOMAIN o.v :
                   CNear(o.v[i], CScale((((((i - 1) \div Len(c.b)) + c.by) % c.n) + 1),
                                        c.b[((i - 1) % Len(c.b)) + 1]), 1, c.S, c.tol)))
        [] c.fn = "cholesky" ->
             (IF Len(o.v) # Len(c.L) THEN {"shape"}
              ELSE Fail("factors", \A k \in DOMAIN o.v : MatNear(o.v[k], c.L[k], c.S, c.tol)))
        [] c.fn = "dist" ->
             Fail("distance", /\ Len(o.v) = Len(c.x)
                 /\ \A i \in DOMAIN o.v : /\ Len(o.v[i]) = Len(c.xp)
                      /\ \A j \in DOMAIN o.v[i] :
                           \* the recorded value is the square of the result
                           Near(o.v[i][j], Dist2(c.x[i], c.xp[j]), 1, c.S, c.tol) /\ o.sign)
        [] c.fn = "cov" ->
             \* length scale such that the covariance halves per unit of squared distance
             Fail("covariance", /\ Len(o.v) = Len(c.x)
                 /\ \A i \in DOMAIN o.v : /\ Len(o.v[i]) = Len(c.xp)
                      /\ \A j \in DOMAIN o.v[i] :
                           LET d == Dist2(c.x[i], c.xp[j]) IN
                           IF d > 20 THEN Abs(o.v[i][j]) <= c.tol
                           ELSE Near(o.v[i][j], Sq(c.sf), Pow(2, d), c.S, c.tol))
=============================================================================

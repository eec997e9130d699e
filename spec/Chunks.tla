------------------------------- MODULE Chunks --------------------------------
(* Joint aggregation of the chunks of several dimensions, correlation       *)
(* shapes, and the complex type wide enough for a set of inputs.            *)
EXTENDS Num
\* the sum of positions i..j of s
Span(s, i, j) == SumSeq(SubSeq(s, i, j))
\* group g of cuts covers positions cuts[g-1]+1 .. cuts[g]
Groups(cuts) == [g \in DOMAIN cuts |-> <<(IF g = 1 THEN 1 ELSE cuts[g - 1] + 1), cuts[g]>>]
Fits(dims, max, i, j) == \A d \in DOMAIN dims : Span(dims[d], i, j) <= max[d]
\* no group is larger than the maximum unless it is a single chunk, and no
\* group could have taken the next chunk as well
Valid(dims, max, cuts) ==
    LET G == Groups(cuts) IN
    /\ cuts[Len(cuts)] = Len(dims[1])
    /\ \A g \in DOMAIN G : /\ G[g][1] <= G[g][2]
                           /\ G[g][1] = G[g][2] \/ Fits(dims, max, G[g][1], G[g][2])
                           /\ g < Len(cuts) => ~Fits(dims, max, G[g][1], G[g][2] + 1)
RECURSIVE Greedy(_, _, _, _)
Greedy(dims, max, i, j) ==
    \* positions i..j form the open group
    IF j = Len(dims[1]) THEN <<j>>
    ELSE IF Fits(dims, max, i, j + 1) THEN Greedy(dims, max, i, j + 1)
    ELSE <<j>> \o Greedy(dims, max, j + 1, j + 1)
Aggregate(dims, max) ==
    LET G == Groups(Greedy(dims, max, 1, 1)) IN
    [d \in DOMAIN dims |-> [g \in DOMAIN G |-> Span(dims[d], G[g][1], G[g][2])]]
CorrShape(n, kind) ==
    IF kind = "flat" THEN <<n>>
    ELSE CASE n = 1 -> <<1>> [] n = 2 -> <<2>> [] n = 4 -> <<2, 2>> [] OTHER -> <<>>
\* types by <<kind, bits>>: the least complex type that holds them all, at least complex64
Need(t) == CASE t = "complex128" -> 128 [] t = "complex64" -> 64 [] t = "float64" -> 128
             [] t = "float32" -> 64 [] t = "float16" -> 64
             [] t \in {"int8", "uint8", "int16", "uint16", "bool"} -> 64
             [] OTHER -> 128
Complex(ts) == IF \E i \in DOMAIN ts : Need(ts[i]) = 128 THEN "complex128" ELSE "complex64"
ChunksVerdict(c, o, e) ==
    IF c.must # "" THEN Fail("must-raise-" \o c.must, e = c.must)
    ELSE IF e # "" THEN {"raised", e}
    ELSE CASE c.fn = "agg" -> Fail("aggregated", o.v = Aggregate(c.dims, c.max)) \cup
                              Fail("form", o.form)
           [] c.fn = "corr" -> Fail("shape", o.v = CorrShape(c.n, c.kind))
           [] c.fn = "dtype" -> Fail("type", o.v = Complex(c.ts))
=============================================================================

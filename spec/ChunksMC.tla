------------------------------ MODULE ChunksMC -------------------------------
(* A running aggregation (one pass over the chunks) against its declarative *)
(* meaning, for all small chunkings of one and two dimensions.              *)
EXTENDS Chunks
CONSTANTS NC, MaxC, ND
VARIABLES dims, max, out, acc, k
vars == <<dims, max, out, acc, k>>
Init == /\ \E n \in 1..NC : dims \in [1..ND -> [1..n -> 0..MaxC]]
        /\ max \in [1..ND -> 1..(MaxC + 1)]
        /\ out = [d \in 1..ND |-> <<>>] /\ acc = [d \in 1..ND |-> dims[d][1]] /\ k = 1
Next == /\ k < Len(dims[1]) /\ k' = k + 1 /\ UNCHANGED <<dims, max>>
        /\ IF \E d \in 1..ND : acc[d] + dims[d][k + 1] > max[d]
           THEN /\ out' = [d \in 1..ND |-> Append(out[d], acc[d])]
                /\ acc' = [d \in 1..ND |-> dims[d][k + 1]]
           ELSE out' = out /\ acc' = [d \in 1..ND |-> acc[d] + dims[d][k + 1]]
Spec == Init /\ [][Next]_vars
Conserved == \A d \in 1..ND : SumSeq(out[d]) + acc[d] = Span(dims[d], 1, k)
Done == k = Len(dims[1]) => [d \in 1..ND |-> Append(out[d], acc[d])] = Aggregate(dims, max)
Good == k = 1 => Valid(dims, max, Greedy(dims, max, 1, 1))
Unique == k = 1 /\ Len(dims[1]) <= 3 =>
    \* the aggregation is the only valid one
    \A S \in SUBSET (1..(Len(dims[1]) - 1)) :
        LET cuts == SetToSortSeq(S \cup {Len(dims[1])}, <) IN
        Valid(dims, max, cuts) => cuts = Greedy(dims, max, 1, 1)
Emit == k = 1 => EmitJson([dims |-> dims, max |-> max])
=============================================================================

------------------------------ MODULE NiftyMC ------------------------------
(* Accumulation of row blocks in streams: a block adds to the grid of the    *)
(* block before it in its stream, in place, and the last grids are summed.   *)
(* Blocks of different streams are executed in any order.  Blocks carry      *)
(* distinct powers of two, so the sum shows how often each was counted.      *)
EXTENDS Nifty
CONSTANTS MaxB, MaxS
VARIABLES nb, st, grid, at, total
vars == <<nb, st, grid, at, total>>
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2*Pow2(k - 1)
Blocks == 0..nb-1
\* at[b]: the array block b's result lives in (named by the stream's first
\* block), -1 before it is executed; grid[a]: contents of that array
Init == /\ nb \in 1..MaxB /\ st \in 1..MaxS /\ total = -1
        /\ grid = [b \in 0..nb-1 |-> 0] /\ at = [b \in 0..nb-1 |-> -1]
Exec(b) ==
    /\ at[b] = -1
    /\ IF Opens(b, nb, st) THEN TRUE ELSE at[b - 1] >= 0
    /\ LET a == IF Opens(b, nb, st) THEN b ELSE at[b - 1] IN
         /\ at' = [at EXCEPT ![b] = a]
         /\ grid' = [grid EXCEPT ![a] = @ + Pow2(b)]
    /\ UNCHANGED <<nb, st, total>>
Sum == /\ total = -1
       /\ \A b \in Blocks : Ends(b, nb, st) => at[b] >= 0
       /\ total' = SumTo(nb, LAMBDA i : IF Ends(i - 1, nb, st)
                                        THEN grid[at[i - 1]] ELSE 0)
       /\ UNCHANGED <<nb, st, grid, at>>
Next == (\E b \in Blocks : Exec(b)) \/ Sum
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Streams == Cardinality({b \in Blocks : Opens(b, nb, st)})
AllOnce == total # -1 => total = Pow2(nb) - 1
AtMostStreams == Streams <= st /\ Streams <= nb
Matched == Streams = Cardinality({b \in Blocks : Ends(b, nb, st)})
\* no array is written after the final sum has read it
Settled == total # -1 => \A b \in Blocks : at[b] >= 0
Done == <>(total # -1)
=============================================================================

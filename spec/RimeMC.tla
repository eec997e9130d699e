------------------------------- MODULE RimeMC -------------------------------
(* Design check of chunked prediction: source chunks are summed either by a *)
(* tree of pairwise additions or by a chain that feeds each partial result  *)
(* into the next task, tasks run in any order consistent with their inputs, *)
(* and any task may be run again.  The total must be the sum over all       *)
(* sources, counted once.                                                   *)
EXTENDS Num

CONSTANTS MaxSrc, MaxRow

\* all ways to cut 1..n into consecutive chunks, as sequences of lengths
RECURSIVE Cuts(_)
Cuts(n) == IF n = 0 THEN {<<>>}
           ELSE UNION {{<<k>> \o rest : rest \in Cuts(n - k)} : k \in 1..n}

VARIABLES schunks, rchunks, mode, partial, total, reruns
vars == <<schunks, rchunks, mode, partial, total, reruns>>

\* distinct powers identify which sources a value contains
Val(s) == Pow(3, s)
ChunkVal(k) == SumSeq([i \in 1..schunks[k] |->
                          Val(Offsets(schunks)[k] + i)])
Full == SumTo(SumSeq(schunks), Val)
None == -1

Init == /\ \E n \in 1..MaxSrc : schunks \in Cuts(n)
        /\ \E n \in 1..MaxRow : rchunks \in Cuts(n)
        /\ mode \in {"tree", "chain"}
        /\ partial = [r \in 1..Len(rchunks) |->
                        [k \in 1..Len(schunks) |-> None]]
        /\ total = [r \in 1..Len(rchunks) |-> None]
        /\ reruns = 1

Ready(r, k) == IF mode = "tree" \/ k = 1 THEN TRUE
               ELSE partial[r][k - 1] # None
Value(r, k) == IF mode = "tree" \/ k = 1 THEN ChunkVal(k)
               ELSE partial[r][k - 1] + ChunkVal(k)
Partial(r, k) ==
    /\ Ready(r, k)
    /\ \/ partial[r][k] = None /\ reruns' = reruns
       \/ partial[r][k] # None /\ reruns > 0 /\ reruns' = reruns - 1
    /\ partial' = [partial EXCEPT ![r][k] = Value(r, k)]
    /\ UNCHANGED <<schunks, rchunks, mode, total>>
Combine(r) ==
    /\ total[r] = None
    /\ \A k \in 1..Len(schunks) : partial[r][k] # None
    /\ total' = [total EXCEPT ![r] =
         IF mode = "tree" THEN SumSeq(partial[r])
         ELSE partial[r][Len(schunks)]]
    /\ UNCHANGED <<schunks, rchunks, mode, partial, reruns>>
Next == \E r \in 1..Len(rchunks) :
           Combine(r) \/ \E k \in 1..Len(schunks) : Partial(r, k)
Spec == Init /\ [][Next]_vars

EverySourceOnce == \A r \in 1..Len(rchunks) : total[r] \in {None, Full}
Emit == (\A r \in 1..Len(rchunks) : total[r] # None) /\ reruns = 1 =>
           EmitJson([sch |-> schunks, rch |-> rchunks, mode |-> mode])
=============================================================================

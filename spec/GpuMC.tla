------------------------------- MODULE GpuMC -------------------------------
(* Every launch of up to MaxN elements in blocks of up to MaxB threads, with *)
(* every interleaving of the threads of a block, for the ways of filling the *)
(* shared memory: by the first thread, by the thread's own column, by the    *)
(* first Tab threads before or after the test that makes threads leave.      *)
EXTENDS Gpu
CONSTANTS MaxN, MaxB, MaxTab, MaxV, MaxVecs

VARIABLES n, b, tab, how, sync, blk, pc, shared, wrote, undef
vars == <<n, b, tab, how, sync, blk, pc, shared, wrote, undef>>
Threads == 0..b-1
Elem(t) == blk*b + t
\* threads load the table before leaving ("all") or after ("stayed")
Hows == {"first", "all", "stayed"}
Init == /\ n \in 1..MaxN /\ b \in 1..MaxB /\ tab \in 1..MaxTab
        /\ how \in Hows /\ sync \in BOOLEAN
        /\ blk = 0 /\ pc = [t \in Threads |-> "load"]
        /\ shared = {} /\ wrote = [i \in 0..n-1 |-> 0] /\ undef = FALSE
Step(t) ==
  /\ UNCHANGED <<n, b, tab, how, sync, blk>>
  /\ CASE pc[t] = "load" ->
            /\ LET in == Elem(t) < n
                   cells == IF how = "first"
                            THEN IF t = 0 THEN 0..tab-1 ELSE {}
                            ELSE IF t < tab /\ (IF how = "all" THEN TRUE
                                                ELSE in)
                                 THEN {t} ELSE {}
               IN /\ shared' = shared \cup cells
                  /\ pc' = [pc EXCEPT ![t] =
                       IF how = "all" THEN (IF sync THEN "wait" ELSE "work")
                       ELSE IF ~in THEN "done"
                       ELSE IF sync THEN "wait" ELSE "work"]
            /\ UNCHANGED <<wrote, undef>>
       [] pc[t] = "work" ->
            /\ IF Elem(t) < n
               THEN /\ undef' = (undef \/ shared # 0..tab-1)
                    /\ wrote' = [wrote EXCEPT ![Elem(t)] = @ + 1]
               ELSE UNCHANGED <<wrote, undef>>
            /\ pc' = [pc EXCEPT ![t] = "done"]
            /\ UNCHANGED shared
Barrier ==
  /\ \A t \in Threads : pc[t] \in {"wait", "done"}
  /\ \E t \in Threads : pc[t] = "wait"
  /\ pc' = [t \in Threads |-> IF pc[t] = "wait" THEN "work" ELSE "done"]
  /\ UNCHANGED <<n, b, tab, how, sync, blk, shared, wrote, undef>>
NextBlock ==
  /\ \A t \in Threads : pc[t] = "done"
  /\ blk + 1 < CeilDiv(n, b)
  /\ blk' = blk + 1 /\ shared' = {}
  /\ pc' = [t \in Threads |-> "load"]
  /\ UNCHANGED <<n, b, tab, how, sync, wrote, undef>>
Next == \/ \E t \in Threads : pc[t] \in {"load", "work"} /\ Step(t)
        \/ Barrier \/ NextBlock
Spec == Init /\ [][Next]_vars
Finished == /\ blk + 1 = CeilDiv(n, b)
            /\ \A t \in Threads : pc[t] = "done"
\* a table loaded by threads that may have left, or are fewer, is incomplete
Sound == sync /\ (how = "first" \/ (how = "all" /\ tab <= b))
TypeOK == /\ shared \subseteq 0..tab-1 /\ blk \in 0..CeilDiv(n, b)-1
          /\ \A t \in Threads : pc[t] \in {"load", "wait", "work", "done"}
AtMostOnce == \A i \in 0..n-1 : wrote[i] <= 1
EveryElement == Finished => \A i \in 0..n-1 : wrote[i] = 1
NothingUndefined == Sound => ~undef
NoStuck == ENABLED Next \/ Finished
\* the last block always has a thread that stays, so "first" always loads
FirstStays == blk*b < n

ASSUME \A V \in {1, 2, 4, MaxV} :
   LET d == [t \in 0..V-1 |-> [k \in 0..V-1 |-> <<t, k>>]] IN
     WarpTranspose(d, V) = Transpose(d, V)
ASSUME \A V \in {1, 2, 4, MaxV}, m \in 1..MaxVecs : Whole(m, V) /\ NoMix(m, V)
G == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, -1>>}
\* the products are bilinear: basis elements times units decide them
Basis == {[e \in 0..3 |-> IF e = i THEN g ELSE <<0, 0>>] :
             i \in 0..3, g \in G} \cup
         {[e \in 0..3 |-> <<e + 1, 2 - e>>], [e \in 0..3 |-> <<-e, 3>>]}
ASSUME \A J, K \in Basis : LaneMul(J, K) = Mat(J, K) /\
                           LaneMulCT(J, K) = MatCT(J, K)
=============================================================================

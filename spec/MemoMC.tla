------------------------------- MODULE MemoMC --------------------------------
(* Threads calling a memoised function: look up, compute and store under a  *)
(* lock, releasing it when the computation fails.                           *)
EXTENDS Memo
CONSTANTS NThr, NKey, NCall
VARIABLES prog, fail, pc, pos, lock, cache, evals, res
vars == <<prog, fail, pc, pos, lock, cache, evals, res>>
Thr == 1..NThr
C == [prog |-> prog, fail |-> fail]
Init == /\ prog \in [Thr -> UNION {[1..n -> 1..NKey] : n \in 1..NCall}]
        /\ fail \in [1..NKey -> 0..1]
        /\ pc = [t \in Thr |-> "call"] /\ pos = [t \in Thr |-> 1] /\ lock = 0
        /\ cache = {} /\ evals = <<>> /\ res = [t \in Thr |-> <<>>]
K(t) == prog[t][pos[t]]
Lock(t) == /\ pc[t] = "call" /\ pos[t] <= Len(prog[t]) /\ lock = 0
           /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "look"]
           /\ UNCHANGED <<prog, fail, pos, cache, evals, res>>
Ret(t, v) == /\ res' = [res EXCEPT ![t] = Append(@, v)]
             /\ pos' = [pos EXCEPT ![t] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "call"] /\ lock' = 0
Look(t) == /\ pc[t] = "look" /\ UNCHANGED <<prog, fail, cache, evals>>
           /\ IF K(t) \in cache THEN Ret(t, "value" \o ToString(K(t)))
              ELSE pc' = [pc EXCEPT ![t] = "eval"] /\ UNCHANGED <<pos, lock, res>>
Eval(t) == /\ pc[t] = "eval" /\ UNCHANGED <<prog, fail>>
           /\ LET n == Cardinality({i \in DOMAIN evals : evals[i][1] = K(t)})
                  ok == n >= fail[K(t)] IN
              /\ evals' = Append(evals, <<K(t), ok>>)
              /\ cache' = IF ok THEN cache \cup {K(t)} ELSE cache
              /\ Ret(t, IF ok THEN "value" \o ToString(K(t)) ELSE "error")
Next == \E t \in Thr : Lock(t) \/ Look(t) \/ Eval(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finished == \A t \in Thr : pos[t] > Len(prog[t])
Right == Finished => MemoOk(C, [evals |-> evals, res |-> res])
Ends == <>Finished
Emit == Finished => EmitJson([prog |-> prog, fail |-> fail])
=============================================================================

----------------------------- MODULE ProgressMC ------------------------------
(* A scheduler running computations one after the other and the timer       *)
(* threads drawing them, sharing the task table under a lock.  A timer      *)
(* reads the table group by group.                                          *)
EXTENDS Progress
CONSTANTS NComp, NTask
Gs == {"a", "b"}
VARIABLES comp, todo, table, lock, running, timers, clear, h
vars == <<comp, todo, table, lock, running, timers, clear, h>>
Empty == [g \in Gs |-> [tot |-> 0, cmp |-> 0]]
Init == /\ comp = 0 /\ todo = <<>> /\ table = Empty /\ lock = "free"
        /\ running = [c \in 1..NComp |-> FALSE] /\ timers = <<>> /\ clear = TRUE /\ h = <<>>
Start == /\ comp < NComp /\ todo = <<>> /\ clear /\ lock = "free"
         /\ \E n \in 1..NTask : \E ts \in [1..n -> Gs] :
              /\ todo' = ts /\ h' = Append(h, ts)
              /\ table' = [g \in Gs |-> [tot |-> Cardinality({i \in 1..n : ts[i] = g}), cmp |-> 0]]
         /\ comp' = comp + 1 /\ running' = [running EXCEPT ![comp + 1] = TRUE]
         /\ timers' = Append(timers, [pc |-> "check", c |-> comp + 1, got |-> Empty, left |-> Gs, acq |-> Empty])
         /\ clear' = FALSE /\ UNCHANGED lock
Post == /\ todo # <<>> /\ lock = "free"
        /\ table' = [table EXCEPT ![todo[1]].cmp = @ + 1]
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<comp, lock, running, timers, clear, h>>
\* finishing: first the flag, then the table, under the lock
Stop == /\ comp > 0 /\ todo = <<>>
        /\ IF comp > 0 THEN running[comp] ELSE FALSE
        /\ running' = [running EXCEPT ![comp] = FALSE]
        /\ UNCHANGED <<comp, todo, table, lock, timers, clear, h>>
Clear == /\ comp > 0 /\ todo = <<>> /\ ~clear /\ lock = "free"
         /\ IF comp > 0 THEN ~running[comp] ELSE FALSE
         /\ table' = Empty /\ clear' = TRUE
         /\ UNCHANGED <<comp, todo, lock, running, timers, h>>
T(i) == timers[i]
Go(i, r) == timers' = [timers EXCEPT ![i] = r]
Check(i) == /\ T(i).pc = "check"
            /\ Go(i, [T(i) EXCEPT !.pc = IF running[T(i).c] THEN "lock" ELSE "dead"])
            /\ UNCHANGED <<comp, todo, table, lock, running, clear, h>>
Acquire(i) == /\ T(i).pc = "lock" /\ lock = "free" /\ lock' = "held"
              /\ Go(i, [T(i) EXCEPT !.pc = "read", !.left = Gs, !.got = Empty, !.acq = table])
              /\ UNCHANGED <<comp, todo, table, running, clear, h>>
Read(i) == /\ T(i).pc = "read"
           /\ IF T(i).left = {} THEN lock' = "free" /\ Go(i, [T(i) EXCEPT !.pc = "draw"])
              ELSE \E g \in T(i).left :
                   lock' = lock /\ Go(i, [T(i) EXCEPT !.got[g] = table[g], !.left = @ \ {g}])
           /\ UNCHANGED <<comp, todo, table, running, clear, h>>
Draw(i) == /\ T(i).pc = "draw" /\ Go(i, [T(i) EXCEPT !.pc = "check"])
           /\ UNCHANGED <<comp, todo, table, lock, running, clear, h>>
Timer(i) == Check(i) \/ Acquire(i) \/ Read(i) \/ Draw(i)
Next == Start \/ Post \/ Stop \/ Clear \/ \E i \in DOMAIN timers : Timer(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Stop) /\ SF_vars(Post) /\ SF_vars(Clear)
             /\ \A i \in 1..NComp : WF_vars(i \in DOMAIN timers /\ Check(i)) /\
                    SF_vars(i \in DOMAIN timers /\ Acquire(i)) /\
                    WF_vars(i \in DOMAIN timers /\ Read(i)) /\ WF_vars(i \in DOMAIN timers /\ Draw(i))
Consistent == \A i \in DOMAIN timers : T(i).pc = "draw" => T(i).got = T(i).acq
Sane == \A i \in DOMAIN timers : T(i).pc = "draw" =>
            \A g \in Gs : T(i).got[g].cmp <= T(i).got[g].tot
OneLive == Cardinality({i \in DOMAIN timers : T(i).pc # "dead" /\ running[T(i).c]}) <= 1
Ends == \A i \in 1..NComp : [](i \in DOMAIN timers => <>(IF i \in DOMAIN timers THEN T(i).pc = "dead" ELSE FALSE))
Emit == (Len(timers) = 0 \/ ~(comp = NComp /\ Len(h) = NComp /\ \A i \in DOMAIN timers : T(i).pc = "check"
          /\ \A c \in 1..NComp : ~running[c])) \/ EmitJson([comps |-> h])
=============================================================================

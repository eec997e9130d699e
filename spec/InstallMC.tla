----------------------------- MODULE InstallMC ------------------------------
(* Threads of one process at a time installing, step by step, with failing  *)
(* downloads and kills; a process looks at the directory when it starts.    *)
(* Atomic: the directory appears in one step (FALSE is the algorithm that   *)
(* copied it file by file: Told and Flag fail).                             *)
EXTENDS Install
CONSTANTS NThr, NCall, NKill, Atomic
VARIABLES dir, arch, inst, lock, pc, left, kills, net, told, gets, first
vars == <<dir, arch, inst, lock, pc, left, kills, net, told, gets, first>>
Thr == 1..NThr
\* newpart: copied in part; it may already look installed
Looks(d) == IF d = "full" THEN {TRUE} ELSE IF d = "newpart" THEN {TRUE, FALSE} ELSE {FALSE}
Init == /\ dir \in {"none", "old", "full"} /\ arch \in {"none", "part", "good"}
        /\ net \in [1..2 -> {"good", "bad", "cut"}]
        /\ inst \in Looks(dir) /\ lock = 0 /\ pc = [t \in Thr |-> "call"]
        /\ left = [t \in Thr |-> NCall] /\ kills = 0 /\ told = FALSE /\ gets = 0
        /\ first = [dir |-> dir, arch |-> arch, net |-> net]
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Resp == IF gets < 2 THEN net[gets + 1] ELSE "good"
Done(t, ok) == /\ Go(t, "call") /\ left' = [left EXCEPT ![t] = @ - 1]
               /\ told' = ok
FS == <<dir, arch>>
Enter(t) == /\ pc[t] = "call" /\ left[t] > 0 /\ UNCHANGED <<FS, inst, lock, kills, net, gets, first>>
            /\ IF inst THEN Done(t, TRUE) ELSE Go(t, "lock") /\ told' = FALSE /\ UNCHANGED left
Lock(t) == /\ pc[t] = "lock" /\ lock = 0 /\ lock' = t /\ Go(t, "again") /\ told' = FALSE
           /\ UNCHANGED <<FS, inst, left, kills, net, gets, first>>
Again(t) == /\ pc[t] = "again" /\ UNCHANGED <<FS, inst, kills, net, gets, first>>
            /\ IF inst THEN Done(t, TRUE) /\ lock' = 0
               ELSE Go(t, IF arch = "good" THEN "rm" ELSE "get") /\ told' = FALSE /\ UNCHANGED <<left, lock>>
\* the download goes straight to the file, so a kill leaves part of it
Get(t) == /\ pc[t] = "get" /\ arch' = "part" /\ Go(t, "got") /\ told' = FALSE
          /\ UNCHANGED <<dir, inst, lock, left, kills, net, gets, first>>
Got(t) == /\ pc[t] = "got" /\ gets' = gets + 1 /\ UNCHANGED <<dir, inst, kills, net, first>>
          /\ IF Resp = "good" THEN arch' = "good" /\ Go(t, "rm") /\ told' = FALSE /\ UNCHANGED <<left, lock>>
             ELSE arch' = "part" /\ Done(t, FALSE) /\ lock' = 0
Rm(t) == /\ pc[t] = "rm" /\ told' = FALSE /\ UNCHANGED <<arch, inst, lock, left, kills, net, gets, first>>
         /\ IF dir = "none" THEN Go(t, "put") /\ UNCHANGED dir
            ELSE dir' = (IF dir = "oldpart" THEN "none" ELSE "oldpart") /\ UNCHANGED pc
Put(t) == /\ pc[t] = "put" /\ told' = FALSE /\ UNCHANGED <<arch, inst, lock, left, kills, net, gets, first>>
          /\ IF Atomic THEN dir' = "full" /\ Go(t, "set")
             ELSE IF dir = "none" THEN dir' = "newpart" /\ UNCHANGED pc
             ELSE dir' = "full" /\ Go(t, "set")
Set(t) == /\ pc[t] = "set" /\ inst' = TRUE /\ lock' = 0 /\ Done(t, TRUE)
          /\ UNCHANGED <<FS, kills, net, gets, first>>
Kill == /\ kills < NKill /\ kills' = kills + 1 /\ lock' = 0 /\ told' = FALSE
        /\ pc' = [t \in Thr |-> "call"] /\ left' = [t \in Thr |-> NCall]
        /\ inst' \in Looks(dir) /\ UNCHANGED <<FS, net, gets, first>>
Next == \/ \E t \in Thr : Enter(t) \/ Lock(t) \/ Again(t) \/ Get(t) \/ Got(t) \/ Rm(t) \/ Put(t) \/ Set(t)
        \/ Kill
Work == \E t \in Thr : Enter(t) \/ Lock(t) \/ Again(t) \/ Get(t) \/ Got(t) \/ Rm(t) \/ Put(t) \/ Set(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)
Told == told => dir = "full"
Flag == inst => dir = "full"
\* nothing is unpacked but the expected archive
Checked == (\E t \in Thr : pc[t] \in {"rm", "put", "set"}) => arch = "good"
Kept == [][dir = "full" => dir' = "full"]_vars
Finished == \A t \in Thr : left[t] = 0 /\ pc[t] = "call"
\* without kills the outcome is the one of calls in sequence
Agrees == (Finished /\ kills = 0) =>
    LET e == Run([inst |-> first.dir = "full", dir |-> first.dir, good |-> first.arch = "good",
                  net |-> first.net \o [i \in 1..(NThr * NCall) |-> "good"], got |-> 0, res |-> <<>>], NThr * NCall) IN
    /\ e.dir = dir /\ e.good = (arch = "good") /\ e.got = gets
Ends == <>[]Finished
Emit == (Finished /\ kills = 0) => EmitJson(first)
=============================================================================

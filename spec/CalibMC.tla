------------------------------ MODULE CalibMC ------------------------------
(* Design checks of calibration on small instances.                         *)
(*  Restores: correcting corrupted visibilities restores the model, for     *)
(*            every pair of invertible 2x2 gains (checked without division: *)
(*            adj(Gp) V adj(Gq)^H = det(Gp) conj(det(Gq)) M).               *)
(*  Chunking: for every way to cut rows into chunks of whole times, looking *)
(*            up a row's gain in its chunk (indices made local by           *)
(*            subtracting the chunk's smallest) finds the gain of its time, *)
(*            in any chunk execution order.                                 *)
EXTENDS Rime
CONSTANTS MaxTime, MaxCount, NVals
Vals == {<<<<0,0>>, <<1,0>>, <<1,1>>, <<-1,2>>>>[i] : i \in 1..NVals}

RECURSIVE Cuts(_)
Cuts(n) == IF n = 0 THEN {<<>>}
           ELSE UNION {{<<k>> \o rest : rest \in Cuts(n - k)} : k \in 1..n}

VARIABLES counts, cuts, base, got, gp, gq
vars == <<counts, cuts, base, got, gp, gq>>
Gains == {<<a, b, cc, d>> : a \in Vals, b \in Vals, cc \in Vals, d \in Vals}
Det(g) == CSub(CMul(g[1], g[4]), CMul(g[2], g[3]))
Adj(g) == <<g[4], CScale(-1, g[2]), CScale(-1, g[3]), g[1]>>
M0 == <<<<1, 2>>, <<3, -1>>, <<0, 5>>, <<-7, 1>>>>

Init == /\ \E n \in 1..MaxTime :
             /\ counts \in [1..n -> 1..MaxCount]
             /\ cuts \in Cuts(n)
        /\ base \in {0, 3}
        /\ got = [k \in {} |-> 0]
        /\ \E s \in {1, 2} :
             IF s = 1 /\ Len(counts) = 1 /\ counts[1] = 1 /\ base = 0
             THEN gp \in Gains /\ gq \in Gains
             ELSE gp = JZero(4) /\ gq = gp
idx == [t \in 1..Len(counts) |-> base + Offsets(counts)[t]]
\* run chunk k: rows of its times, local indices
RunChunk(k) ==
    /\ k \notin DOMAIN got
    /\ LET t0 == Offsets(cuts)[k]
           local == [j \in 1..cuts[k] |-> idx[t0 + j] - idx[t0 + 1]]
           n == SumSeq([j \in 1..cuts[k] |-> counts[t0 + j]])
           res == [r \in 1..n |-> CHOOSE j \in 1..cuts[k] :
                     r > local[j] /\ r <= local[j] + counts[t0 + j]]
       IN got' = got @@ (k :> [r \in 1..n |-> t0 + res[r]])
    /\ UNCHANGED <<counts, cuts, base, gp, gq>>
Next == \E k \in 1..Len(cuts) : RunChunk(k)
Spec == Init /\ [][Next]_vars

TimeOfRow(r) == CHOOSE t \in 1..Len(counts) :
    r > Offsets(counts)[t] /\ r <= Offsets(counts)[t] + counts[t]
ChunkRow0(k) == Offsets(counts)[Offsets(cuts)[k] + 1]
Chunking == \A k \in DOMAIN got : \A r \in 1..Len(got[k]) :
               got[k][r] = TimeOfRow(ChunkRow0(k) + r)
Restores ==
    LET v == MMul(MMul(gp, M0), MHerm(gq))
        x == MMul(MMul(Adj(gp), v), MHerm(Adj(gq)))
        s == CMul(Det(gp), CConj(Det(gq)))
    IN x = [k \in 1..4 |-> CMul(s, M0[k])]
Emit == DOMAIN got = 1..Len(cuts) =>
           EmitJson([tbc |-> counts, tch |-> cuts, base |-> base])
=============================================================================

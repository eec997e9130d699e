-------------------------------- MODULE SpiMC --------------------------------
(* Design check of the fit: channels are added one by one.  Theorems: the   *)
(* normal equations are regular as soon as two different frequencies have   *)
(* weight; data that follow the model are stationary at the truth; channels *)
(* of weight zero do not matter; weights matter only up to scale; the order *)
(* of the channels is irrelevant.  Emits channel layouts.                   *)
EXTENDS Spi
CONSTANTS NChan
VARIABLES k, w, d, beam
vars == <<k, w, d, beam>>
Case(kk, ww, dd, bb) == [k |-> kk, w |-> ww, d |-> <<dd>>, beam |-> <<bb>>]
Cur == Case(k, w, d, beam)
Init == k = <<>> /\ w = <<>> /\ d = <<>> /\ beam = <<>>
Add == /\ Len(k) < NChan
       /\ \E kk \in -1..1, ww \in 0..2, dd \in {2, 5}, bb \in 1..2 :
            /\ (ww = 0 \/ bb = 2) => dd = 2
            /\ k' = Append(k, kk) /\ w' = Append(w, ww)
            /\ d' = Append(d, dd) /\ beam' = Append(beam, bb)
Spec == Init /\ [][Add]_vars
N == Len(k)
Seen == {k[f] : f \in {g \in 1..N : w[g] > 0}}
Als == {-1, 0, 1}
Regular == N > 0 => \A al \in Als : (Det(Cur, 1, al) > 0) = (Cardinality(Seen) >= 2)
TruthIsStationary == N > 0 => \A al \in Als :
    LET c == Case(k, w, [f \in 1..N |-> 2 * beam[f] * Pow(2, al*k[f] + 1)], beam)
    IN Stationary(c, 1, al, 4)
Keep == {f \in 1..N : w[f] > 0}
Sub(s, K) == LET idx == SetToSortSeq(K, <) IN [j \in 1..Len(idx) |-> s[idx[j]]]
ZeroWeight == Cardinality(Seen) >= 2 => \A al \in Als :
    LET c == Case(Sub(k, Keep), Sub(w, Keep), Sub(d, Keep), Sub(beam, Keep))
        \* steps are ratios: compare by cross multiplication
        p == Pow2(M(Cur, al) - M(c, al)) IN
    /\ StepI(Cur, 1, al, 3) * Det(c, 1, al) = StepI(c, 1, al, 3) * Det(Cur, 1, al)
    /\ StepA(Cur, 1, al, 3) * Det(c, 1, al) = StepA(c, 1, al, 3) * Det(Cur, 1, al)
Scale == Cardinality(Seen) >= 2 => \A al \in Als :
    LET c == Case(k, [f \in 1..N |-> 2*w[f]], d, beam) IN
    StepI(Cur, 1, al, 3) * Det(c, 1, al) = StepI(c, 1, al, 3) * Det(Cur, 1, al)
Order == Cardinality(Seen) >= 2 => \A al \in Als :
    LET c == Case(Reverse(k), Reverse(w), Reverse(d), Reverse(beam)) IN
    StepA(Cur, 1, al, 3) = StepA(c, 1, al, 3) /\ StepI(Cur, 1, al, 3) = StepI(c, 1, al, 3)
Emit == (N >= 3 /\ Cardinality(Seen) >= 2 /\ \A f \in 1..N : d[f] = 2)
        => EmitJson([k |-> k, w |-> w, beam |-> beam])
=============================================================================

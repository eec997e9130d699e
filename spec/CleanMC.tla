------------------------------- MODULE CleanMC -------------------------------
(* Design check: at every step, and for every choice among equal peaks,     *)
(* the dirty image equals the residual plus the model convolved with the    *)
(* psf; the cleaning stops within niter iterations; and with a psf that is  *)
(* a single pixel every component reduces the peak.                         *)
EXTENDS Clean
CONSTANTS NV, NP, NIter, G
Vals == {<<2, -1, 3, 0, 1, -2>>[i] : i \in 1..NV}
PsfVals == {<<0, 1, -1>>[i] : i \in 1..NP}

VARIABLES c, s, stopped
vars == <<c, s, stopped>>
N == 2
Images == [1..N -> [1..N -> Vals]]
\* 4x4 psf with centre (2,2) one-based; a symmetric pattern of side values
Psf(a, b) == [x \in 1..2*N |-> [y \in 1..2*N |->
                IF x = N /\ y = N THEN 1
                ELSE IF x = N \/ y = N THEN a ELSE b]]
Init == /\ \E d \in Images, a \in PsfVals, b \in PsfVals, k \in 0..NIter,
              t \in {<<0, 1>>, <<1, 2>>, <<1, 5>>} :
             c = [n |-> N, dirty |-> d, psf |-> Psf(a, b), g |-> G,
                  sc |-> Pow(2, G * NIter), niter |-> k, tnum |-> t[1],
                  tden |-> t[2], exact |-> t[2] # 5]
        /\ s = Start(c)
        /\ stopped = FALSE
Go == /\ ~stopped /\ CanGo(c, s)
      /\ \E z \in Peaks(N, s.res) : s' = CleanStep(c, s, z)
      /\ UNCHANGED <<c, stopped>>
Stop == /\ ~stopped /\ CanStop(c, s) /\ stopped' = TRUE /\ UNCHANGED <<c, s>>
Next == Go \/ Stop
Spec == Init /\ [][Next]_vars

Conserved == \A x \in 1..N, y \in 1..N :
    c.sc * c.dirty[x][y] = s.res[x][y] +
        SumOver((1..N) \X (1..N), LAMBDA z :
            s.clean[z[1]][z[2]] * c.psf[N - z[1] + x][N - z[2] + y])
Bounded == s.it <= c.niter
Delta == (\A x \in 1..2*N, y \in 1..2*N : (x = N /\ y = N) \/ c.psf[x][y] = 0)
         => \A x \in 1..N, y \in 1..N :
               Abs(s.res[x][y]) <= c.sc * Abs(c.dirty[x][y])
Emit == stopped => EmitJson([dirty |-> c.dirty, psf |-> c.psf, g |-> c.g,
                      niter |-> c.niter, tnum |-> c.tnum, tden |-> c.tden])
=============================================================================

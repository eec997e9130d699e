------------------------------- MODULE DftMC -------------------------------
(* Design of the chunked transforms.                                        *)
(*  - Channels are cut into bands, bands into chunks; a chunk sees only its *)
(*    own channels and re-bases the band start indices by their minimum.    *)
(*    Every channel must land in its own band.                              *)
(*  - Row chunks each produce a partial image; partial images may be made   *)
(*    in any order and more than once, and are added once.                  *)
(*  - Adjoint: <R x, y> = <x, R' y> for the quarter-turn lattice.           *)
EXTENDS Dft
CONSTANTS MaxChan, MaxRow

RECURSIVE Cuts(_)
Cuts(n) == IF n = 0 THEN {<<>>}
           ELSE UNION {{<<k>> \o rest : rest \in Cuts(n - k)} : k \in 1..n}

VARIABLES bands, bchunks, rchunks, base, done, image, reruns
vars == <<bands, bchunks, rchunks, base, done, image, reruns>>
Init == /\ \E n \in 1..MaxChan : bands \in Cuts(n)
        /\ bchunks \in Cuts(Len(bands))
        /\ \E n \in 1..MaxRow : rchunks \in Cuts(n)
        /\ base \in {0, 2}
        /\ done = [k \in {} |-> 0]
        /\ image = <<>>
        /\ reruns = 1
Blocks == (1..Len(rchunks)) \X (1..Len(bchunks))
idx == [b \in 1..Len(bands) |-> base + Offsets(bands)[b]]
\* a datum for every (row, channel)
Datum(r, f) == Pow(2, (r - 1) * SumSeq(bands) + f)
\* what one block computes: per band of its chunk, the sum of its data,
\* using the re-based start index inside the chunk's own channels
BlockVal(z) ==
    LET b0 == Offsets(bchunks)[z[2]]
        c0 == Offsets(bands)[b0 + 1]
        r0 == Offsets(rchunks)[z[1]]
    IN [j \in 1..bchunks[z[2]] |->
          LET start == idx[b0 + j] - idx[b0 + 1] IN
          SumOver({<<r, f>> \in (1..rchunks[z[1]]) \X (1..bands[b0 + j]) : TRUE},
                  LAMBDA y : Datum(r0 + y[1], c0 + start + y[2]))]
Run(z) == /\ IF z \in DOMAIN done THEN reruns > 0 /\ reruns' = reruns - 1
             ELSE reruns' = reruns
          /\ done' = IF z \in DOMAIN done
                     THEN [done EXCEPT ![z] = BlockVal(z)]
                     ELSE done @@ (z :> BlockVal(z))
          /\ UNCHANGED <<bands, bchunks, rchunks, base, image>>
BandChunk(b) == CHOOSE k \in 1..Len(bchunks) :
    b > Offsets(bchunks)[k] /\ b <= Offsets(bchunks)[k] + bchunks[k]
Reduce == /\ image = <<>>
          /\ DOMAIN done = Blocks
          /\ image' = [b \in 1..Len(bands) |->
               SumTo(Len(rchunks), LAMBDA i :
                 done[<<i, BandChunk(b)>>][b - Offsets(bchunks)[BandChunk(b)]])]
          /\ UNCHANGED <<bands, bchunks, rchunks, base, done, reruns>>
Next == Reduce \/ \E z \in Blocks : Run(z)
Spec == Init /\ [][Next]_vars

Complete == image # <<>> => \A b \in 1..Len(bands) :
    image[b] = SumOver({<<r, f>> \in (1..SumSeq(rchunks)) \X (1..bands[b]) : TRUE},
                       LAMBDA y : Datum(y[1], Offsets(bands)[b] + y[2]))
Emit == image # <<>> /\ reruns = 1 =>
    EmitJson([bands |-> bands, bch |-> bchunks, rch |-> rchunks, base |-> base])

\* adjointness, for every image and data of unit deltas on a small lattice
Lat == {-1, 0, 1}
AdjC(u, v, w, x, y, z, cv) ==
    [nrow |-> 1, nchan |-> 1, ncorr |-> 1, nband |-> 1, band |-> <<1>>,
     fm |-> <<1>>, uvw |-> <<<<u, v, w>>>>, px |-> <<<<x, y, z, 12>>>>,
     wsign |-> 1, conv |-> cv, hasF |-> FALSE, hasW |-> FALSE,
     im |-> <<<<<<COne>>>>>>]
ASSUME \A u \in Lat, v \in Lat, w \in Lat, x \in Lat, y \in Lat, z \in Lat,
          cv \in {-1, 1}, k \in 0..3 :
    LET c == AdjC(u, v, w, x, y, z, cv)
        d == Quarter(k)
        m == Model12(c, 1, 1, 1)
    IN CMul(CConj(m), d)[1] = Dirty12(c, 1, 1, 1, LAMBDA r, f, kk : d)
=============================================================================

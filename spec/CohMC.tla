-------------------------------- MODULE CohMC --------------------------------
(* Design check of the conversion table: whichever correlations are kept,   *)
(* every derivation of a Stokes parameter recovers the true value, every    *)
(* correlation derived from Stokes is the true one, and the coherency is    *)
(* Hermitian for real Stokes.  Emits which inputs produce which outputs.    *)
EXTENDS Coh
CONSTANTS MaxIn, NV
Vals == {<<1, -2, 0, 3>>[i] : i \in 1..NV}
\* true values of everything given a real Stokes vector (twice is not needed)
Truth(s) == [k \in Known |->
    CASE k = "I" -> <<s[1], 0>> [] k = "Q" -> <<s[2], 0>>
      [] k = "U" -> <<s[3], 0>> [] k = "V" -> <<s[4], 0>>
      [] k = "XX" -> <<s[1] + s[2], 0>> [] k = "YY" -> <<s[1] - s[2], 0>>
      [] k = "XY" -> <<s[3], s[4]>> [] k = "YX" -> <<s[3], -s[4]>>
      [] k = "RR" -> <<s[1] + s[4], 0>> [] k = "LL" -> <<s[1] - s[4], 0>>
      [] k = "RL" -> <<s[2], s[3]>> [] k = "LR" -> <<s[2], -s[3]>>]
VARIABLES s, ins, out
vars == <<s, ins, out>>
Init == s \in [1..4 -> Vals] /\ ins = {} /\ out = "none"
AddIn == /\ out = "none" /\ Cardinality(ins) < MaxIn
         /\ \E k \in Known \ ins : ins' = ins \cup {k}
         /\ UNCHANGED <<s, out>>
Produce == /\ out = "none" /\ ins # {} /\ out' \in Known
           /\ UNCHANGED <<s, ins>>
Next == AddIn \/ Produce
Spec == Init /\ [][Next]_vars
Names == SetToSeq(ins)
ValOf == [i \in DOMAIN Names |-> Truth(s)[Names[i]]]
Recovered == out # "none" =>
    \A t \in Values(Names, ValOf, out) : t = Twice(Truth(s)[out])
OnlyBothWays == out # "none" =>
    (Values(Names, ValOf, out) # {} =>
        IF out \in StokesN THEN ins \cap Corrs # {} ELSE ins \cap StokesN # {})
Hermitian == /\ Truth(s)["XY"] = CConj(Truth(s)["YX"])
             /\ Truth(s)["RL"] = CConj(Truth(s)["LR"])
Emit == (out # "none" /\ s = [i \in 1..4 |-> 1]) =>
            EmitJson([ins |-> Names, out |-> out])
=============================================================================

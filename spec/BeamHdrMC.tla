------------------------------ MODULE BeamHdrMC ------------------------------
(* Design check: on every axis the reference pixel carries the reference    *)
(* value, steps equal cdelt, inverting twice is the identity; schemas that  *)
(* name both the correlation and the part give distinct file names.         *)
(* Emits axis layouts and schemas to run.                                   *)
EXTENDS BeamHdr
CONSTANTS NMax
Types == {"L", "X", "PX", "M", "Y", "PY", "FREQ", "STOKES"}
Toks == {[k |-> "lit", s |-> "b_"], [k |-> "var", s |-> "corr"],
         [k |-> "var", s |-> "CORR"], [k |-> "var", s |-> "reim"],
         [k |-> "var", s |-> "REIM"], [k |-> "esc", s |-> ""],
         [k |-> "var", s |-> "foo"]}
VARIABLES axes, toks, kind
vars == <<axes, toks, kind>>
Init == axes = <<>> /\ toks = <<>> /\ kind \in {"axes", "schema"}
AddAxis == /\ kind = "axes" /\ Len(axes) < 4
           /\ \E t \in Types, n \in 1..NMax, p \in 1..2, dl \in {-2, 3} :
                /\ \A i \in DOMAIN axes : axes[i].type # t
                /\ (t \in LNames => \A i \in DOMAIN axes : axes[i].type \notin LNames)
                /\ (t \in MNames => \A i \in DOMAIN axes : axes[i].type \notin MNames)
                /\ (n = NMax => (p = 1) = (dl = 3))
                /\ Len(axes) > 0 => (n = NMax)
                /\ axes' = Append(axes, [type |-> t, up |-> t, n |-> n,
                     crval |-> n + p, crpix |-> p, cdelt |-> dl, irr |-> <<>>])
           /\ UNCHANGED <<toks, kind>>
AddTok == /\ kind = "schema" /\ Len(toks) < 4
          /\ \E t \in Toks : toks' = Append(toks, t)
          /\ UNCHANGED <<axes, kind>>
Next == AddAxis \/ AddTok
Spec == Init /\ [][Next]_vars
Reference == \A i \in DOMAIN axes : LET a == axes[i] IN
    /\ a.crpix <= a.n => Grid(a)[a.crpix] = a.crval
    /\ \A k \in 1..(a.n - 1) : Grid(a)[k + 1] - Grid(a)[k] = a.cdelt
    /\ Signed(-1, Signed(-1, Grid(a))) = Grid(a)
HasCorr == \E i \in DOMAIN toks : toks[i].s \in {"corr", "CORR"}
HasPart == \E i \in DOMAIN toks : toks[i].s \in {"reim", "REIM"}
Distinct == (HasCorr /\ HasPart) =>
    \A i, j \in {5, 8, 9, 10, 12}, r, q \in 1..2 :
        (Expand(toks, i, r) = Expand(toks, j, q)) => (i = j /\ r = q)
Emit == ((kind = "axes" /\ Len(axes) >= 3) \/ (kind = "schema" /\ toks # <<>>))
        => EmitJson([kind |-> kind, toks |-> toks,
                     axes |-> [i \in DOMAIN axes |-> axes[i].type]])
=============================================================================

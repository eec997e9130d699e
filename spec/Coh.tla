--------------------------------- MODULE Coh ---------------------------------
(* Conversion between Stokes parameters and linear/circular correlations.   *)
(* All values are Gaussian integers <<re, im>>.  Derive gives TWICE the     *)
(* value so that the halves in the Stokes definitions stay exact.           *)
EXTENDS Num

StokesN == {"I", "Q", "U", "V"}
Linear == {"XX", "XY", "YX", "YY"}
Circular == {"RR", "RL", "LR", "LL"}
Corrs == Linear \cup Circular
Known == StokesN \cup Corrs
CIm(a) == <<-a[2], a[1]>>          \* i * a
Twice(a) == CScale(2, a)
ReOf(a) == <<a[1], 0>>
ImOf(a) == <<a[2], 0>>

\* the pairs from which a quantity can be derived
Sources(k) ==
    CASE k \in {"RR", "LL"} -> {<<"I", "V">>}
      [] k \in {"RL", "LR"} -> {<<"Q", "U">>}
      [] k \in {"XX", "YY"} -> {<<"I", "Q">>}
      [] k \in {"XY", "YX"} -> {<<"U", "V">>}
      [] k = "I" -> {<<"XX", "YY">>, <<"RR", "LL">>}
      [] k = "Q" -> {<<"XX", "YY">>, <<"RL", "LR">>}
      [] k = "U" -> {<<"XY", "YX">>, <<"RL", "LR">>}
      [] k = "V" -> {<<"XY", "YX">>, <<"RR", "LL">>}
      [] OTHER -> {}
\* twice the value of k derived from the pair p with values a, b
Derive(k, p, a, b) ==
    CASE k \in {"RR", "XX"} -> Twice(CAdd(a, b))
      [] k \in {"LL", "YY"} -> Twice(CSub(a, b))
      [] k \in {"RL", "XY"} -> Twice(CAdd(a, CIm(b)))
      [] k \in {"LR", "YX"} -> Twice(CSub(a, CIm(b)))
      [] k = "I" -> ReOf(CAdd(a, b))
      [] k = "Q" -> IF p[1] = "XX" THEN ReOf(CSub(a, b)) ELSE ReOf(CAdd(a, b))
      [] k = "U" -> IF p[1] = "XY" THEN ReOf(CAdd(a, b)) ELSE ImOf(CSub(a, b))
      [] k = "V" -> IF p[1] = "XY" THEN ImOf(CSub(a, b)) ELSE ReOf(CSub(a, b))

\* names: sequence of input names; val: sequence of their values
Pos(names, n) == CHOOSE i \in DOMAIN names : names[i] = n
Avail(names, k) == {p \in Sources(k) :
                      (\E i \in DOMAIN names : names[i] = p[1]) /\
                      (\E j \in DOMAIN names : names[j] = p[2])}
Values(names, val, k) ==
    {Derive(k, p, val[Pos(names, p[1])], val[Pos(names, p[2])])
        : p \in Avail(names, k)}

Dup(names) == \E i, j \in DOMAIN names : i < j /\ names[i] = names[j]
Problems(c) ==
    (IF Dup(c.inames) \/ Dup(c.onames) THEN {"ValueError"} ELSE {}) \cup
    (IF \E i \in DOMAIN c.onames : c.onames[i] \notin Known
     THEN {"ValueError"} ELSE {}) \cup
    (IF \E i \in DOMAIN c.onames : c.onames[i] \in Known /\
           Avail(c.inames, c.onames[i]) = {}
     THEN {"MissingConversionInputs"} ELSE {}) \cup
    (IF c.defect \in {"shape", "badid"} THEN {"ValueError"} ELSE {}) \cup
    (IF c.defect = "ragged" THEN {"DimensionMismatch"} ELSE {}) \cup
    (IF c.defect = "badtype" THEN {"TypeError"} ELSE {})

\* o.val[f][i]: value (scaled by S) of output i at free index f
CohVerdict(c, o, e) ==
    IF Problems(c) # {} THEN Fail("must-raise", e \in Problems(c))
    ELSE IF e # "" THEN {"raised", e}
    ELSE IF ~o.shape_ok THEN {"shape"}
    ELSE UNION {
        UNION {Fail("value",
                  \E t \in Values(c.inames, c.val[f], c.onames[i]) :
                     CNear(o.val[f][i], t, 2, c.S, 1))
               : i \in DOMAIN c.onames} : f \in DOMAIN c.val} \cup
        Fail("complex-iff-correlations",
             o.cplx = (\E i \in DOMAIN c.onames : c.onames[i] \in Corrs)) \cup
        Fail("inputs-unchanged", o.inputs_ok) \cup
        Fail("declared-metadata", o.meta_ok)
=============================================================================

------------------------------- MODULE BeamHdr -------------------------------
(* Beam cube FITS headers -> grids, and beam file name schemas.             *)
(* Axis: [type, up, n, crval, crpix, cdelt, deg, irr]; numbers are integers *)
(* (in degrees when deg); up is the upper case type; irr is a sequence of   *)
(* explicit grid values, or empty when any is missing.                      *)
EXTENDS Num

GridAt(a, k) == IF Len(a.irr) = a.n THEN a.irr[k]
                ELSE (k - a.crpix) * a.cdelt + a.crval
Grid(a) == [k \in 1..a.n |-> GridAt(a, k)]
LNames == {"L", "X", "PX"}
MNames == {"M", "Y", "PY"}
AxisIn(c, names) == {i \in DOMAIN c.axes : c.axes[i].up \in names}

Signed(s, g) == [k \in DOMAIN g |-> s * g[k]]
GridsVerdict(c, o, e) ==
    LET L == AxisIn(c, LNames)
        M == AxisIn(c, MNames)
        F == AxisIn(c, {"FREQ"}) IN
    IF L = {} \/ M = {} \/ F = {}
    THEN Fail("must-raise-ValueError", e = "ValueError")
    ELSE IF e # "" THEN {"raised", e}
    ELSE Fail("l-axis", o.ax[1] \in L) \cup Fail("m-axis", o.ax[2] \in M) \cup
         Fail("freq-axis", o.ax[3] \in F) \cup
         (IF o.ax[1] \in L /\ o.ax[2] \in M /\ o.ax[3] \in F
          THEN Fail("l-grid", o.l = Signed(c.S * c.lsign, Grid(c.axes[o.ax[1]]))) \cup
               Fail("m-grid", o.m = Signed(c.S * c.msign, Grid(c.axes[o.ax[2]]))) \cup
               Fail("freq-grid", o.f = Signed(c.S, Grid(c.axes[o.ax[3]])))
          ELSE {}) \cup
         Fail("header-unchanged", o.inputs_ok)
\* every axis, not only the three
AxesVerdict(c, o, e) ==
    IF e # "" THEN {"raised", e}
    ELSE Fail("ndims", o.ndims = Len(c.axes) /\ Len(o.grid) = Len(c.axes)) \cup
         (IF Len(o.grid) # Len(c.axes) THEN {} ELSE
          UNION {LET a == c.axes[i] IN
            Fail("grid", o.grid[i] = Signed(c.S, Grid(a))) \cup
            Fail("unit", o.unit[i] = (IF a.deg THEN "RAD" ELSE a.unit)) \cup
            Fail("type", o.type[i] = a.type) \cup
            Fail("crpix", o.crpix[i] = a.crpix - 1) \cup
            Fail("crval", o.crval[i] = c.S * a.crval) \cup
            Fail("cdelt", o.cdelt[i] = c.S * a.cdelt)
            : i \in DOMAIN c.axes}) \cup Fail("header-unchanged", o.inputs_ok)

-----------------------------------------------------------------------------
(* A schema is a sequence of tokens [k, s]: k = "lit" (text s), "var"       *)
(* (variable s) or "esc" (a dollar sign).                                   *)
Names == << <<"i", "I">>, <<"q", "Q">>, <<"u", "U">>, <<"v", "V">>,
            <<"rr", "RR">>, <<"rl", "RL">>, <<"lr", "LR">>, <<"ll", "LL">>,
            <<"xx", "XX">>, <<"xy", "XY">>, <<"yx", "YX">>, <<"yy", "YY">>,
            <<"rx", "RX">>, <<"ry", "RY">>, <<"lx", "LX">>, <<"ly", "LY">>,
            <<"xr", "XR">>, <<"xl", "XL">>, <<"yr", "YR">>, <<"yl", "YL">> >>
Vars == {"corr", "CORR", "reim", "REIM"}
ReIm == << <<"re", "RE">>, <<"im", "IM">> >>
Text(t, id, r) ==
    CASE t.k = "lit" -> t.s
      [] t.k = "esc" -> "$"
      [] t.s = "corr" -> Names[id][1] [] t.s = "CORR" -> Names[id][2]
      [] t.s = "reim" -> ReIm[r][1]   [] t.s = "REIM" -> ReIm[r][2]
      [] OTHER -> "?"
Expand(toks, id, r) == FoldLeft(LAMBDA acc, t : acc \o Text(t, id, r), "", toks)
FilesVerdict(c, o, e) ==
    IF \/ \E i \in DOMAIN c.ids : c.ids[i] > 32
       \/ \E i \in DOMAIN c.toks : c.toks[i].k = "var" /\ c.toks[i].s \notin Vars
    THEN Fail("must-raise-ValueError", e = "ValueError")
    ELSE IF e # "" THEN {"raised", e}
    ELSE Fail("keys", o.keys = [i \in DOMAIN c.ids |-> Names[c.ids[i]][1]]) \cup
         Fail("files", o.files = [i \in DOMAIN c.ids |->
             <<Expand(c.toks, c.ids[i], 1), Expand(c.toks, c.ids[i], 2)>>])
=============================================================================

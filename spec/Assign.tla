------------------------------- MODULE Assign -------------------------------
(* Sequences of assignments of literals and slices to names, and the cycles *)
(* of an in-place rotation.                                                 *)
(* Expressions and values: [k, v, e] with kind, text and elements.          *)
EXTENDS Num
IsErr(x) == x.k = "error"
Err(s) == [k |-> "error", v |-> s, e |-> <<>>]
NoneV == [k |-> "none", v |-> "", e |-> <<>>]
Leaves == {"int", "float", "complex", "str", "bytes", "bool", "none"}
\* literals: leaves and containers of literals
RECURSIVE Literal(_)
Literal(x) == CASE x.k \in Leaves -> TRUE
    [] x.k \in {"list", "tuple", "dict", "pair"} -> \A i \in DOMAIN x.e : Literal(x.e[i])
    [] OTHER -> FALSE
\* the value of a right hand side; calls: v function, e positional arguments
\* ("kw" elements are keyword arguments)
RECURSIVE Value(_)
Value(x) ==
    IF x.k = "call" THEN
        IF x.v # "slice" THEN Err("ValueError")
        ELSE LET a == TLCEval([i \in DOMAIN x.e |-> Value(IF x.e[i].k = "kw" THEN x.e[i].e[1] ELSE x.e[i])])
                 bad == {i \in DOMAIN a : IsErr(a[i])} IN
             IF bad # {} THEN a[CHOOSE i \in bad : \A j \in bad : i <= j]
             ELSE IF Len(a) \notin 1..3 THEN Err("TypeError")
             ELSE IF \E i \in DOMAIN x.e : x.e[i].k = "kw" THEN Err("TypeError")
             ELSE [k |-> "slice", v |-> "", e |->
                    IF Len(a) = 1 THEN <<NoneV, a[1], NoneV>>
                    ELSE IF Len(a) = 2 THEN <<a[1], a[2], NoneV>> ELSE a]
    ELSE IF Literal(x) THEN x ELSE Err("ValueError")
\* one target; env: names to values
Bind(env, n, v) == (n :> v) @@ env
RECURSIVE BindAll(_, _, _)
BindAll(env, ns, vs) == IF Len(ns) = 0 THEN env
    ELSE BindAll(Bind(env, Head(ns), Head(vs)), Tail(ns), Tail(vs))
\* states are [env, err]
Target(s, t, v) ==
    IF s.err # "" THEN s
    ELSE CASE t.k = "name" -> [s EXCEPT !.env = Bind(@, t.n[1], v)]
           [] t.k = "seq" ->
                LET es == IF v.k \in {"tuple", "list"} THEN v.e ELSE <<v>> IN
                IF Len(es) # Len(t.n) THEN [s EXCEPT !.err = "ValueError"]
                ELSE [s EXCEPT !.env = BindAll(@, t.n, es)]
           [] t.k = "nested" -> [s EXCEPT !.err = "ValueError"]
           [] t.k = "other" -> [s EXCEPT !.err = "TypeError"]
RECURSIVE Targets(_, _, _)
Targets(s, ts, v) == IF Len(ts) = 0 THEN s ELSE Targets(Target(s, Head(ts), v), Tail(ts), v)
Stmt(s, x) ==
    IF s.err # "" THEN s
    ELSE IF x.k # "assign" THEN [s EXCEPT !.err = "ValueError"]
    ELSE LET v == TLCEval(Value(x.v)) IN
         IF IsErr(v) THEN [s EXCEPT !.err = v.v] ELSE Targets(s, x.t, v)
RECURSIVE Exec(_, _)
Exec(s, p) == IF Len(p) = 0 THEN s ELSE Exec(TLCEval(Stmt(s, Head(p))), Tail(p))
Empty == [env |-> [n \in {} |-> NoneV], err |-> ""]
\* the observed dictionary: sequence of <<name, value>>
Observed(r) == [n \in {r[i][1] : i \in DOMAIN r} |->
                 r[CHOOSE i \in DOMAIN r : r[i][1] = n][2]]
\* rotation by c of n registers: dest i takes the value of (i - c) mod n
Src(n, c, i) == (i + n * ((c \div n) + 1) - c) % n
CyclesOk(n, c, cs) ==
    /\ \A a \in DOMAIN cs : Len(cs[a]) > 0 /\ \A i \in DOMAIN cs[a] :
        /\ cs[a][i][2] = Src(n, c, cs[a][i][1])
        /\ cs[a][i][2] = cs[a][IF i = Len(cs[a]) THEN 1 ELSE i + 1][1]
    /\ \A d \in 0..(n - 1) :
        Cardinality({<<a, i>> \in UNION {{a} \X DOMAIN cs[a] : a \in DOMAIN cs} :
            cs[a][i][1] = d}) = (IF Src(n, c, d) = d THEN 0 ELSE 1)
AssignVerdict(c, o, e) ==
    CASE c.fn = "assign" ->
           LET s == TLCEval(Exec(Empty, c.prog)) IN
           IF s.err # "" THEN Fail("error-" \o s.err, e = s.err)
           ELSE IF e # "" THEN {"raised", e}
           ELSE Fail("names", Len(o.r) = Cardinality(DOMAIN s.env)
                              /\ {o.r[i][1] : i \in DOMAIN o.r} = DOMAIN s.env)
                \cup (IF {o.r[i][1] : i \in DOMAIN o.r} = DOMAIN s.env
                      THEN Fail("values", Observed(o.r) = s.env) ELSE {})
      [] c.fn = "cycles" -> IF e # "" THEN {"raised", e}
           ELSE Fail("cycles", CyclesOk(c.n, c.c, o.cs))
=============================================================================

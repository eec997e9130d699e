-------------------------------- MODULE Memo ---------------------------------
(* Memoised functions and singletons called from several threads, and       *)
(* functions with optional requirements.                                    *)
EXTENDS Num
Calls(c, k) == SumTo(Len(c.prog), LAMBDA t : Cardinality({i \in DOMAIN c.prog[t] : c.prog[t][i] = k}))
Keys(c) == UNION {ToSet(c.prog[t]) : t \in DOMAIN c.prog}
\* evaluations of a key: the first c.fail[k] of them fail, and one success
\* is enough for ever
Evals(c, k) == LET m == Calls(c, k) IN
    [bad |-> MinI(c.fail[k], m), good |-> IF m > c.fail[k] THEN 1 ELSE 0]
MemoOk(c, o) ==
    /\ \A k \in Keys(c) :
        LET e == {i \in DOMAIN o.evals : o.evals[i][1] = k}
            r == {<<t, i>> \in UNION {{t} \X DOMAIN c.prog[t] : t \in DOMAIN c.prog} :
                    c.prog[t][i] = k} IN
        /\ Cardinality({i \in e : o.evals[i][2]}) = Evals(c, k).good
        /\ Cardinality({i \in e : ~o.evals[i][2]}) = Evals(c, k).bad
        /\ Cardinality({x \in r : o.res[x[1]][x[2]] = "error"}) = Evals(c, k).bad
        /\ \A x \in r : o.res[x[1]][x[2]] \in {"error", "value" \o ToString(k)}
    /\ \A i \in DOMAIN o.evals : o.evals[i][1] \in Keys(c)
SingleOk(c, o) == /\ \A k \in DOMAIN o.made : o.made[k] = (IF k \in Keys(c) THEN 1 ELSE 0)
                  /\ \A t \in DOMAIN c.prog : \A i \in DOMAIN c.prog[t] :
                        o.res[t][i] = c.prog[t][i]
\* requirements: "have", "miss", "none", "error" (an ImportError), "force", "bad"
Decorated(rs) == IF \E i \in DOMAIN rs : rs[i] = "bad" THEN "TypeError"
    ELSE IF \E i \in DOMAIN rs : rs[i] = "miss" THEN "wrapper"
    ELSE IF \E i \in DOMAIN rs : rs[i] = "error" THEN "ImportError" ELSE "original"
Called(rs, test) == CASE Decorated(rs) = "original" -> "value"
    [] Decorated(rs) = "wrapper" ->
         (IF test /\ ~\E i \in DOMAIN rs : rs[i] = "force" THEN "Skipped" ELSE "MissingPackageException")
    [] OTHER -> ""
MemoVerdict(c, o, e) ==
    IF e # "" THEN {"raised", e}
    ELSE CASE c.fn = "memo" -> Fail("deadlock", o.done) \cup
                (IF o.done THEN Fail("once-per-key", MemoOk(c, o)) ELSE {})
           [] c.fn = "single" -> Fail("deadlock", o.done) \cup
                (IF o.done THEN Fail("one-instance", SingleOk(c, o)) ELSE {})
           [] c.fn = "req" -> Fail("decorated", o.dec = Decorated(c.rs)) \cup
                Fail("called", o.call = Called(c.rs, c.test)) \cup
                Fail("named", o.names) \cup Fail("wrapped", o.same)
           [] c.fn = "sum" -> Fail("numbered", o.v = [i \in DOMAIN c.lines |-> <<i, c.lines[i]>>])
=============================================================================

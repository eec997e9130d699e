------------------------------ MODULE Install -------------------------------
(* Installation of a header archive: downloaded, checked against its hash,  *)
(* unpacked and put in place, in sessions that may fail or be killed.       *)
(* Directory states: "none", "full" (exactly the archive's contents), "old" *)
(* (another version), "part" (anything else); looks: passes for installed.  *)
EXTENDS Num
\* one call; s = [inst, dir, good, net, got, res]: installed flag, directory,
\* whether the archive on disk is the expected one, remaining responses,
\* downloads made, results
Call(s) ==
    IF s.inst THEN [s EXCEPT !.res = Append(@, "ok")]
    ELSE IF s.good THEN [s EXCEPT !.inst = TRUE, !.dir = "full", !.res = Append(@, "ok")]
    ELSE LET n == Head(s.net)
             t == [s EXCEPT !.net = Tail(@), !.got = @ + 1] IN
         CASE n = "good" -> [t EXCEPT !.inst = TRUE, !.dir = "full", !.good = TRUE, !.res = Append(@, "ok")]
           [] n \in {"bad", "short"} -> [t EXCEPT !.res = Append(@, "hash")]
           [] n \in {"cut", "refused"} -> [t EXCEPT !.res = Append(@, "net")]
RECURSIVE Run(_, _)
Run(s, n) == IF n = 0 THEN s ELSE Run(Call(s), n - 1)
Start(p, net) == [inst |-> p.looks, dir |-> p.dir, good |-> p.good, net |-> net, got |-> 0, res |-> <<>>]
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
\* a session that ran to its end; with several threads the order of the
\* results is free
SessionOk(p, x, o) ==
    LET e == TLCEval(Run(Start(p, x.net), x.calls)) IN
    /\ o.end
    /\ IF x.thr = 1 THEN o.res = e.res
       ELSE \A r \in {"ok", "hash", "net"} : Count(o.res, r) = Count(e.res, r)
    /\ Len(o.res) = x.calls /\ o.got = e.got
    /\ o.dir = e.dir /\ o.good = e.good /\ o.left = 0
\* a session killed somewhere
KilledOk(p, x, o) ==
    LET e == TLCEval(Run(Start(p, x.net), x.calls)) IN
    /\ \A i \in DOMAIN o.res : o.res[i] = e.res[i]
    /\ o.got <= e.got
    /\ o.looks => (o.dir = "full" \/ (p.looks /\ o.dir = p.dir))
    /\ (p.dir = "full" /\ p.looks) => o.dir = "full"
    /\ p.good => o.good
\* whatever happened: who was told "ok" finds everything in place
AlwaysOk(o) == /\ \A i \in DOMAIN o.there : o.there[i]
               /\ (\E i \in DOMAIN o.res : o.res[i] = "ok") => o.dir = "full"
Pre(c, o, i) == IF i = 1 THEN o.init ELSE o.s[i - 1]
InstallVerdict(c, o, e) ==
    IF e # "" THEN {"raised", e}
    ELSE CASE c.fn = "hist" ->
        Fail("sessions", Len(o.s) = Len(c.sess))
        \cup UNION {LET p == Pre(c, o, i)
                        x == c.sess[i]
                        y == o.s[i] IN
            Fail("in-place", AlwaysOk(y)) \cup
            (IF y.killed THEN Fail("killed", KilledOk(p, x, y))
             ELSE Fail("session", SessionOk(p, x, y))) : i \in DOMAIN o.s}
=============================================================================

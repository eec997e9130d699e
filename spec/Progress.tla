------------------------------ MODULE Progress -------------------------------
(* What a progress bar shows.  A computation is a sequence of tasks         *)
(* <<group, duration>> run one after the other; time is counted in ticks    *)
(* from its start.                                                          *)
EXTENDS Num
L == 12
EndOf(ts, k) == SumSeq([i \in 1..k |-> ts[i][2]])
\* the tasks completed before a tick
Done(ts, T) == {k \in DOMAIN ts : EndOf(ts, k) < T}
GroupsOf(ts) == {ts[k][1] : k \in DOMAIN ts}
Tot(ts, g) == Cardinality({k \in DOMAIN ts : ts[k][1] = g})
Cmp(ts, D, g) == Cardinality({k \in D : ts[k][1] = g})
Spent(ts, D, g) == SumOver({k \in D : ts[k][1] = g}, LAMBDA k : ts[k][2])
Sum(ts, D) == SumOver(D, LAMBDA k : ts[k][2])
\* L times: average time of a group's tasks times their number, over the
\* groups that have completed any
Guess(ts, D) == SumOver({g \in GroupsOf(ts) : Cmp(ts, D, g) > 0},
                        LAMBDA g : Spent(ts, D, g) * Tot(ts, g) * (L \div Cmp(ts, D, g)))
\* v is the whole part of num/den; a value that is exactly whole may have
\* been rounded to just below
Whole(v, num, den) == v = num \div den \/ (num % den = 0 /\ v = (num \div den) - 1)
\* seconds to <<unit, a, b>>
Human(s) ==
    CASE s >= 604800 -> <<"w", s \div 604800, (s % 604800) \div 86400>>
      [] s >= 86400 -> <<"d", s \div 86400, (s % 86400) \div 3600>>
      [] s >= 3600 -> <<"h", s \div 3600, (s % 3600) \div 60>>
      [] s >= 60 -> <<"m", s \div 60, s % 60>>
      [] OTHER -> <<"s", s, 0>>
\* u = <<seconds, ticks>>: length of a tick
HumanWhole(v, num, den) == v = Human(num \div den) \/
    (num % den = 0 /\ num > 0 /\ v = Human((num \div den) - 1))
Shows(c, ts, D, T, m) ==
    /\ HumanWhole(m.el, T * c.u[1], c.u[2])
    /\ IF D = {} THEN m.est = <<"?", 0, 0>> /\ m.pct = 0 /\ m.hash \in {-1, 0}
       ELSE HumanWhole(m.est, (Guess(ts, D) * T * c.u[1]), (L * Sum(ts, D) * c.u[2]))
    /\ IF T * c.u[1] < 10 * c.u[2] THEN m.pct = 0 /\ m.hash = -1
       ELSE IF D = {} THEN m.hash = 0
       ELSE /\ Whole(m.pct, 100 * L * Sum(ts, D), Guess(ts, D))
            /\ Whole(m.hash, c.width * L * Sum(ts, D), Guess(ts, D))
\* the ticks at which the bar of a computation is drawn
RECURSIVE Ticks(_, _, _)
Ticks(c, total, j) == IF j * c.dt > total THEN <<>>
    ELSE (IF j * c.dt > c.min THEN <<j * c.dt>> ELSE <<>>) \o Ticks(c, total, j + 1)
Total(ts) == EndOf(ts, Len(ts))
CompOk(c, ts, ms) ==
    LET tk == Ticks(c, Total(ts), 1) IN
    /\ Len(ms) = Len(tk)
    /\ \A j \in DOMAIN ms : ms[j].T = tk[j] /\ Shows(c, ts, Done(ts, tk[j]), tk[j], ms[j])
RaceOk(c, o) ==
    \* one drawing, interrupted: the state before or after the other thread's
    \* step, never a mixture, and nothing once the computation is over
    LET ts == c.comps[1].tasks
        before == Done(ts, c.at)
        after == IF c.op = "post" THEN before \cup {Cardinality(before) + 1} ELSE {} IN
    /\ Len(o.msgs[1]) <= 1
    /\ c.op = "post" => Len(o.msgs[1]) = 1
    /\ \A j \in DOMAIN o.msgs[1] :
         \/ Shows(c, ts, before, c.at, o.msgs[1][j])
         \/ LET cut == [k \in DOMAIN ts |-> IF k = Cardinality(before) + 1
                          THEN <<ts[k][1], c.at - EndOf(ts, k - 1)>> ELSE ts[k]] IN
            Shows(c, cut, after, c.at, o.msgs[1][j])
\* two tasks complete, one after the other, while a drawing is in progress:
\* it shows one of the three states
MixOk(c, o) ==
    LET ts == c.comps[1].tasks
        cut == [k \in DOMAIN ts |-> IF k > c.m THEN <<ts[k][1], 1>> ELSE ts[k]] IN
    /\ Len(o.msgs[1]) = 1
    /\ \E n \in 0..2 : Shows(c, cut, 1..(c.m + n), c.at, o.msgs[1][1])
ProgressVerdict(c, o, e) ==
    IF e # "" THEN {"raised", e}
    ELSE CASE c.fn = "time" -> Fail("human-time", \A i \in DOMAIN c.s : o.v[i] = Human(c.s[i] \div 4))
           [] c.fn = "run" ->
               Fail("thread-errors", o.errors = <<>>) \cup Fail("timers-end", o.left = 0) \cup
               Fail("results", o.res_ok) \cup
               Fail("drawn", Len(o.msgs) = Len(c.comps) /\
                    \A k \in DOMAIN c.comps : CompOk(c, c.comps[k].tasks, o.msgs[k])) \cup
               Fail("after-end", o.late = 0)
           [] c.fn = "mix" ->
               Fail("thread-errors", o.errors = <<>>) \cup Fail("timers-end", o.left = 0) \cup
               Fail("after-end", o.late = 0) \cup Fail("progress", o.done) \cup
               Fail("consistent", c.op # "post" \/ MixOk(c, o))
           [] c.fn = "race" ->
               Fail("thread-errors", o.errors = <<>>) \cup Fail("timers-end", o.left = 0) \cup
               Fail("consistent", RaceOk(c, o)) \cup Fail("after-end", o.late = 0)
=============================================================================

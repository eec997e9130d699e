-------------------------------- MODULE Num --------------------------------
(* Exact arithmetic shared by the specifications.  Real quantities of the   *)
(* implementation are recorded as fixed-point integers  v = round(x * S);   *)
(* the specification computes the exact rational num/den and accepts v when *)
(* it lies within tol units of it.  Complex values are pairs <<re, im>>.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt,
        Functions, Json, IOUtils

Abs(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

\* sentinels written by the harness for values that are not finite numbers
BIG == 1999999000

SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
SumTo(n, f(_)) == FoldLeft(LAMBDA acc, x : acc + f(x), 0, [i \in 1..n |-> i])

Sq(x) == x * x
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

\* v ~ S * num / den   (den > 0)
Near(v, num, den, S, tol) ==
    /\ Abs(v) <= 1000000000 \div den
    /\ Abs(v * den - S * num) <= tol * den

\* complex: v = <<vr, vi>> against <<re, im>>/den
CNear(v, z, den, S, tol) ==
    /\ Near(v[1], z[1], den, S, tol)
    /\ Near(v[2], z[2], den, S, tol)

CZero == <<0, 0>>
COne  == <<1, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
CConj(a)   == <<a[1], -a[2]>>
CScale(k, a) == <<k*a[1], k*a[2]>>
CSumOver(S, f(_)) == FoldSet(LAMBDA x, acc : CAdd(acc, f(x)), CZero, S)
CSumTo(n, f(_)) ==
    FoldLeft(LAMBDA acc, x : CAdd(acc, f(x)), CZero, [i \in 1..n |-> i])

\* quarter turns: exp(i * k * pi/2)
Quarter(k) == CASE k % 4 = 0 -> <<1, 0>>  [] k % 4 = 1 -> <<0, 1>>
                [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>

\* clause bookkeeping: the set of names whose condition fails
Fail(name, ok) == IF ok THEN {} ELSE {name}

\* long arrays: every repeated element came out as its original did
Repeats(o, e) == IF e = "" /\ "rep" \in DOMAIN o THEN Fail("repeated-elements", o.rep) ELSE {}

\* append one JSON line to the file the harness reads behaviours from
EmitJson(x) ==
    Serialize(ToJson(x) \o "\n", IOEnv.EMIT,
              [format |-> "TXT", charset |-> "UTF-8",
               openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

Prefix(s, n) == SubSeq(s, 1, n)
\* exclusive prefix sums of a sequence of lengths
Offsets(lens) ==
    [i \in 1..Len(lens) |-> SumSeq(SubSeq(lens, 1, i - 1))]
=============================================================================

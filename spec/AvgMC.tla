------------------------------- MODULE AvgMC -------------------------------
(* Exhaustive check of the time-binning machine on all small row sets: the  *)
(* rows of different baselines may be taken in any interleaving.            *)
EXTENDS Avg

CONSTANTS MaxRows, MaxT, MaxH, MaxTb

VARIABLES case, left, open, closed
vars == <<case, left, open, closed>>

RowsOf(n) == [1..n -> (0..MaxT) \X (1..MaxH) \X {<<0, 1>>, <<1, 0>>}]

Init == /\ \E n \in 1..MaxRows : \E rs \in RowsOf(n), tb \in 1..MaxTb :
             /\ \A i, j \in 1..n : i # j =>
                   <<rs[i][1], rs[i][3]>> # <<rs[j][1], rs[j][3]>>
             /\ case = [nrow |-> n, rch |-> <<n>>, tb |-> tb,
                        t |-> [i \in 1..n |-> rs[i][1]],
                        h |-> [i \in 1..n |-> rs[i][2]],
                        a1 |-> [i \in 1..n |-> rs[i][3][1]],
                        a2 |-> [i \in 1..n |-> rs[i][3][2]]]
        /\ left = 1..case.nrow
        /\ open = NoOpen(case, 1, case.nrow)
        /\ closed = <<>>

Take(r) == /\ \A q \in left : Bl(case, q) = Bl(case, r) =>
                                  case.t[q] >= case.t[r]
           /\ LET x == TakeRow(case, open, closed, r) IN
                open' = x[1] /\ closed' = x[2]
           /\ left' = left \ {r}
           /\ UNCHANGED case

Next == \E r \in left : Take(r)
Spec == Init /\ [][Next]_vars

AllBins == CloseAll(open, closed)
InBins == UNION {ToSet(AllBins[k]) : k \in 1..Len(AllBins)}

\* every taken row sits in exactly one bin, of its own baseline
Partition ==
    /\ InBins = (1..case.nrow) \ left
    /\ SumSeq([k \in 1..Len(AllBins) |-> Len(AllBins[k])])
         = Cardinality(InBins)
    /\ \A k \in 1..Len(AllBins) : \A i \in 1..Len(AllBins[k]) :
          Bl(case, AllBins[k][i]) = Bl(case, AllBins[k][1])
\* a bin of several rows never spans more than the bin length
SpanLimit ==
    \A k \in 1..Len(AllBins) : LET b == AllBins[k] IN
       Len(b) > 1 => Hi(case, b[Len(b)]) - Lo(case, b[1]) <= case.tb
\* bins are as full as possible: a closed bin could not take the next row
Maximal ==
    left = {} => \A j, k \in 1..Len(AllBins) :
      LET x == AllBins[j]
          y == AllBins[k] IN
      (/\ Bl(case, x[1]) = Bl(case, y[1])
       /\ case.t[x[1]] < case.t[y[1]]
       /\ ~\E z \in 1..Len(AllBins) :
             /\ Bl(case, AllBins[z][1]) = Bl(case, x[1])
             /\ case.t[AllBins[z][1]] > case.t[x[1]]
             /\ case.t[AllBins[z][1]] < case.t[y[1]])
         => ~Fits(case, x, y[1])
\* confluence: the result does not depend on the interleaving
RECURSIVE Seq2Bins(_, _, _, _)
Seq2Bins(c, rows, op, cl) ==
    IF rows = <<>> THEN OutputOrder(c, CloseAll(op, cl))
    ELSE LET x == TakeRow(c, op, cl, Head(rows)) IN
         Seq2Bins(c, Tail(rows), x[1], x[2])
Confluent ==
    left = {} => OutputOrder(case, AllBins) =
                 Seq2Bins(case, TimeOrder(case, 1, case.nrow),
                          NoOpen(case, 1, case.nrow), <<>>)
Ordered ==
    left = {} => LET o == OutputOrder(case, AllBins) IN
       \A k \in 1..(Len(o) - 1) : BinBefore(case, o[k], o[k + 1])

\* behaviours handed to the implementation: a spread of the cases
Pick == LET k == SumTo(case.nrow, LAMBDA i : (2*i + 1)*(7*case.t[i] +
                     3*case.h[i] + 5*case.a1[i])) + 11*case.tb IN
        k % (IF IOEnv.TIER = "thorough" THEN 13 ELSE 97) = 0
EmitCase == left = {} /\ Pick => EmitJson(case)
=============================================================================

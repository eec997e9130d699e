------------------------------ MODULE AvgTrace ------------------------------
(* Validates recorded averaging calls: for every trace line the binning     *)
(* machine is run row by row over each row chunk, then the recorded result  *)
(* is compared with the bins it ends in.                                    *)
EXTENDS Avg

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ti,      \* current trace line
          ck,      \* current row chunk
          todo,    \* rows of the chunk still to be taken, in time order
          open, closed,
          bins     \* output rows of the finished chunks
vars == <<ti, ck, todo, open, closed, bins>>

C == Traces[ti].c
ChunkLo(c, k) == SumSeq(SubSeq(c.rch, 1, k - 1)) + 1
ChunkHi(c, k) == SumSeq(SubSeq(c.rch, 1, k))

StartChunk(t, k) ==
    LET c == Traces[t].c
        lo == ChunkLo(c, k)
        hi == ChunkHi(c, k) IN
    /\ todo' = TimeOrder(c, lo, hi)
    /\ open' = NoOpen(c, lo, hi)
    /\ closed' = <<>>

Init == /\ ti = 0 /\ ck = 0 /\ todo = <<>> /\ open = <<>> /\ closed = <<>>
        /\ bins = <<>>

Begin == /\ ti = 0 /\ Len(Traces) > 0
         /\ ti' = 1 /\ ck' = 1 /\ bins' = <<>> /\ StartChunk(1, 1)

Take == /\ ti \in 1..Len(Traces) /\ todo # <<>>
        /\ LET x == TakeRow(C, open, closed, Head(todo)) IN
             open' = x[1] /\ closed' = x[2]
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<ti, ck, bins>>

CloseChunk ==
    /\ ti \in 1..Len(Traces) /\ todo = <<>> /\ ck < Len(C.rch)
    /\ bins' = bins \o OutputOrder(C, CloseAll(open, closed))
    /\ ck' = ck + 1 /\ ti' = ti
    /\ StartChunk(ti, ck + 1)

Return ==
    /\ ti \in 1..Len(Traces) /\ todo = <<>> /\ ck >= Len(C.rch)
    /\ LET all == bins \o OutputOrder(C, CloseAll(open, closed))
           f == Verdict(C, Traces[ti].o, Traces[ti].e, all)
                \cup Repeats(Traces[ti].o, Traces[ti].e) IN
         IF f = {} THEN TRUE ELSE PrintT(<<"BAD", Traces[ti].id, f>>)
    /\ ti' = ti + 1 /\ bins' = <<>>
    /\ IF ti < Len(Traces)
       THEN ck' = 1 /\ StartChunk(ti + 1, 1)
       ELSE /\ PrintT(<<"DONE", Len(Traces)>>)
            /\ ck' = 0 /\ todo' = <<>> /\ open' = <<>> /\ closed' = <<>>

Next == Begin \/ Take \/ CloseChunk \/ Return
Spec == Init /\ [][Next]_vars
=============================================================================

----------------------------- MODULE ChunksTrace ------------------------------
EXTENDS Chunks
Traces == ndJsonDeserialize(IOEnv.TRACE)
Verdict(x) == ChunksVerdict(x.c, x.o, x.e)
VARIABLE ti
Init == ti = 1
Next == /\ ti <= Len(Traces)
        /\ LET x == Traces[ti]
               f == Verdict(x) \cup Repeats(x.o, x.e) IN
             IF f = {} THEN TRUE ELSE PrintT(<<"BAD", x.id, f>>)
        /\ ti' = ti + 1
        /\ IF ti = Len(Traces) THEN PrintT(<<"DONE", ti>>) ELSE TRUE
Spec == Init /\ [][Next]_ti
=============================================================================

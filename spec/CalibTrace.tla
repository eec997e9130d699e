----------------------------- MODULE CalibTrace -----------------------------
EXTENDS Calib
Traces == ndJsonDeserialize(IOEnv.TRACE)
Verdict(x) ==
    CASE x.c.fn \in {"corrupt", "residual", "compute", "correct"} ->
             ApplyVerdict(x.c, x.o, x.e)
      [] x.c.fn = "chunkify" -> ChunkRowsVerdict(x.c, x.o, x.e)
      [] x.c.fn = "normal" -> NormalVerdict(x.c, x.o, x.e)
      [] x.c.fn = "step" -> StepVerdict(x.c, x.o, x.e)
      [] x.c.fn = "solve" -> SolveVerdict(x.c, x.o, x.e)
VARIABLE ti
Init == ti = 1
Next == /\ ti <= Len(Traces)
        /\ LET x == Traces[ti]
               f == Verdict(x) \cup Repeats(x.o, x.e) IN
             IF f = {} THEN TRUE ELSE PrintT(<<"BAD", x.id, f>>)
        /\ ti' = ti + 1
        /\ IF ti = Len(Traces) THEN PrintT(<<"DONE", ti>>) ELSE TRUE
Spec == Init /\ [][Next]_ti
=============================================================================

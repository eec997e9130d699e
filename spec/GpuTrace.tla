----------------------------- MODULE GpuTrace -----------------------------
(* The GPU forms give what the specification of their CPU form demands,     *)
(* under every schedule of their threads, without touching memory that is   *)
(* not theirs or leaving behaviour undefined.                               *)
EXTENDS Num
R == INSTANCE Rime
S == INSTANCE Sky
H == INSTANCE Coh
Traces == ndJsonDeserialize(IOEnv.TRACE)
Function(x) ==
    CASE x.c.gpu = "predict" -> R!PredictVerdict(x.c, x.o, x.e)
      [] x.c.gpu = "convert" -> H!CohVerdict(x.c, x.o, x.e)
      [] x.c.fn = "phase" -> S!PhaseVerdict(x.c, x.o, x.e)
      [] x.c.fn = "feed" -> S!FeedVerdict(x.c, x.o, x.e)
      [] x.c.fn = "beam" -> S!BeamVerdict(x.c, x.o, x.e)
Verdict(x) == Function(x) \cup
    (IF x.e = "" THEN {x.o.emu[i] : i \in DOMAIN x.o.emu} \cup
                      Fail("launched", x.o.launches > 0) ELSE {})
VARIABLE ti
Init == ti = 1
Next == /\ ti <= Len(Traces)
        /\ LET x == Traces[ti]
               f == Verdict(x) \cup Repeats(x.o, x.e) IN
             IF f = {} THEN TRUE ELSE PrintT(<<"BAD", x.id, f>>)
        /\ ti' = ti + 1
        /\ IF ti = Len(Traces) THEN PrintT(<<"DONE", ti>>) ELSE TRUE
Spec == Init /\ [][Next]_ti
=============================================================================

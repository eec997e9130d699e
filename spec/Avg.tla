-------------------------------- MODULE Avg --------------------------------
(* Time and channel averaging.                                              *)
(*                                                                          *)
(* A case c holds the rows of one call: times c.t and half intervals c.h in *)
(* integer ticks, antennas c.a1/c.a2, the bin length c.tb in ticks, the     *)
(* channel bin size c.cb, optional columns (c.hasX), and the row and        *)
(* channel chunks c.rch/c.cch (one chunk each when dask is not involved).   *)
(*                                                                          *)
(* State machine: rows of a chunk are taken in time order; each baseline    *)
(* has at most one open bin, and a row either joins it or closes it.        *)
EXTENDS Num

Bl(c, r) == <<c.a1[r], c.a2[r]>>
Lo(c, r) == c.t[r] - c.h[r]
Hi(c, r) == c.t[r] + c.h[r]

\* rows lo..hi in time order
TimeOrder(c, lo, hi) ==
    SortSeq([i \in 1..(hi - lo + 1) |-> lo + i - 1],
            LAMBDA a, b : c.t[a] < c.t[b] \/ (c.t[a] = c.t[b] /\ a < b))

Baselines(c, lo, hi) == {Bl(c, r) : r \in lo..hi}
NoOpen(c, lo, hi) == [b \in Baselines(c, lo, hi) |-> <<>>]

Fits(c, cur, r) == Hi(c, r) - Lo(c, cur[1]) <= c.tb

\* one step of the machine: <<open, closed>> after taking row r
TakeRow(c, open, closed, r) ==
    LET b == Bl(c, r)
        cur == open[b] IN
    IF cur = <<>> \/ Fits(c, cur, r)
    THEN <<[open EXCEPT ![b] = Append(cur, r)], closed>>
    ELSE <<[open EXCEPT ![b] = <<r>>], Append(closed, cur)>>

CloseAll(open, closed) ==
    closed \o SetToSeq({open[b] : b \in DOMAIN open} \ {<<>>})

SumT(c, bin) == SumSeq([i \in 1..Len(bin) |-> c.t[bin[i]]])
BinBefore(c, x, y) ==
    LET sx == SumT(c, x) * Len(y)
        sy == SumT(c, y) * Len(x)
        bx == Bl(c, x[1])
        by == Bl(c, y[1]) IN
    \/ sx < sy
    \/ sx = sy /\ bx[1] < by[1]
    \/ sx = sy /\ bx[1] = by[1] /\ bx[2] < by[2]

OutputOrder(c, bins) == SortSeq(bins, LAMBDA x, y : BinBefore(c, x, y))

-----------------------------------------------------------------------------
(* Flags.  A row is flagged by its row flag or, in its absence, when every  *)
(* one of its samples is flagged.                                           *)
HasRowFlags(c) == c.hasfr \/ c.hasflag
AllSamples(c, r) ==
    \A f \in 1..c.nchan, p \in 1..c.ncorr : c.flag[r][f][p] # 0
RowFlagged(c, r) ==
    IF c.hasfr THEN c.fr[r] # 0
    ELSE IF c.hasflag THEN AllSamples(c, r) ELSE FALSE
FlagsDisagree(c) ==
    /\ c.hasfr /\ c.hasflag
    /\ \E r \in 1..c.nrow : (c.fr[r] # 0) # AllSamples(c, r)
Duplicates(c) ==
    LET start == Offsets(c.rch) IN
    \E k \in 1..Len(c.rch) :
      \E r, q \in (start[k] + 1)..(start[k] + c.rch[k]) :
        r # q /\ c.t[r] = c.t[q] /\ Bl(c, r) = Bl(c, q)

BinFlagged(c, bin) == \A i \in 1..Len(bin) : RowFlagged(c, bin[i])
\* rows whose effective values enter the bin
Eff(c, bin) == {bin[i] : i \in {j \in 1..Len(bin) :
                   RowFlagged(c, bin[j]) = BinFlagged(c, bin)}}

\* channel bins of the channel chunks, as sequences of channel intervals
ChanBins(c) ==
    LET off == Offsets(c.cch)
        one(k) == LET n == (c.cch[k] + c.cb - 1) \div c.cb IN
                  [j \in 1..n |-> <<off[k] + (j - 1)*c.cb + 1,
                                    off[k] + MinI(j*c.cb, c.cch[k])>>]
    IN FlattenSeq([k \in 1..Len(c.cch) |-> one(k)])

\* <<row, chan>> samples entering (bin, channel bin, corr)
Samples(c, bin, cbn, p) ==
    LET all == Eff(c, bin) \X (cbn[1]..cbn[2]) IN
    IF ~c.hasflag THEN all
    ELSE LET good == {s \in all : c.flag[s[1]][s[2]][p] = 0} IN
         IF good = {} THEN all ELSE good
SampleFlagged(c, bin, cbn, p) ==
    c.hasflag /\ \A s \in Eff(c, bin) \X (cbn[1]..cbn[2]) :
                    c.flag[s[1]][s[2]][p] # 0
Wt(c, s, p) == IF c.hasws THEN c.ws[s[1]][s[2]][p]
               ELSE IF c.hasw THEN c.w[s[1]][p] ELSE 1

-----------------------------------------------------------------------------
(* Verdict on a recorded result o of case c with output bins obins and the  *)
(* scale S (ticks and values alike).                                        *)
S == 256

RowVerdict(c, o, bins) ==
    LET n == Len(bins)
        E(k) == Eff(c, bins[k])
        ne(k) == Cardinality(E(k))
        K == 1..n
        shp(x, m) == Len(x) = n /\ \A k \in K : Len(x[k]) = m
    IN
    IF Len(o.time) # n THEN {"number-of-output-rows"} ELSE
    Fail("time", \A k \in K :
         Near(o.time[k], SumT(c, bins[k]), Len(bins[k]), S, 1)) \cup
    Fail("interval", Len(o.interval) = n /\ \A k \in K :
         o.interval[k] = S * 2 * SumSeq([i \in 1..Len(bins[k]) |->
                                            c.h[bins[k][i]]])) \cup
    Fail("antenna1", Len(o.a1) = n /\ \A k \in K :
         o.a1[k] = c.a1[bins[k][1]]) \cup
    Fail("antenna2", Len(o.a2) = n /\ \A k \in K :
         o.a2[k] = c.a2[bins[k][1]]) \cup
    (IF HasRowFlags(c)
     THEN Fail("flag_row", Len(o.fr) = n /\ \A k \in K :
            o.fr[k] = (IF BinFlagged(c, bins[k]) THEN 1 ELSE 0))
     ELSE Fail("flag_row-absent", o.hasfr = FALSE)) \cup
    Fail("flag_row-present", o.hasfr = HasRowFlags(c)) \cup
    (IF ~c.hastc THEN Fail("tc-absent", ~o.hastc) ELSE
     Fail("time_centroid", o.hastc /\ Len(o.tc) = n /\ \A k \in K :
         Near(o.tc[k], SumOver(E(k), LAMBDA r : c.tc[r]), ne(k), S, 1))) \cup
    (IF ~c.hasexp THEN Fail("exposure-absent", ~o.hasexp) ELSE
     Fail("exposure", o.hasexp /\ Len(o.exp) = n /\ \A k \in K :
         o.exp[k] = S * SumOver(E(k), LAMBDA r : c.exp[r]))) \cup
    (IF ~c.hasuvw THEN Fail("uvw-absent", ~o.hasuvw) ELSE
     Fail("uvw", o.hasuvw /\ shp(o.uvw, 3) /\ \A k \in K, j \in 1..3 :
         Near(o.uvw[k][j], SumOver(E(k), LAMBDA r : c.uvw[r][j]), ne(k),
              S, 1))) \cup
    (IF ~c.hasw THEN Fail("weight-absent", ~o.hasw) ELSE
     Fail("weight", o.hasw /\ shp(o.w, c.ncorr) /\
         \A k \in K, p \in 1..c.ncorr :
           o.w[k][p] = S * SumOver(E(k), LAMBDA r : c.w[r][p]))) \cup
    (IF ~c.hassig THEN Fail("sigma-absent", ~o.hassig) ELSE
     Fail("sigma", o.hassig /\ shp(o.sig2, c.ncorr) /\
         \A k \in K, p \in 1..c.ncorr :
           LET wr(r) == IF c.hasw THEN c.w[r][p] ELSE 1
               num == SumOver(E(k), LAMBDA r : Sq(c.sig[r][p]*wr(r)))
               ws == SumOver(E(k), wr)
           IN IF ws = 0 THEN o.sig2[k][p] = 0
              ELSE Near(o.sig2[k][p], num, ws*ws, S, 2)))

ChanVerdict(c, o) ==
    LET cbs == ChanBins(c)
        m == Len(cbs)
        mean(has, x, ohas, ox, name) ==
          IF ~has THEN Fail(name \o "-absent", ~ohas) ELSE
          Fail(name, ohas /\ Len(ox) = m /\ \A k \in 1..m :
            Near(ox[k], SumOver(cbs[k][1]..cbs[k][2], LAMBDA f : x[f]),
                 cbs[k][2] - cbs[k][1] + 1, S, 1))
        total(has, x, ohas, ox, name) ==
          IF ~has THEN Fail(name \o "-absent", ~ohas) ELSE
          Fail(name, ohas /\ Len(ox) = m /\ \A k \in 1..m :
            ox[k] = S * SumOver(cbs[k][1]..cbs[k][2], LAMBDA f : x[f]))
    IN mean(c.hascf, c.cf, o.hascf, o.cf, "chan_freq") \cup
       total(c.hascw, c.cw, o.hascw, o.cw, "chan_width") \cup
       total(c.hasebw, c.ebw, o.hasebw, o.ebw, "effective_bw") \cup
       total(c.hasres, c.res, o.hasres, o.res, "resolution")

CellVerdict(c, o, bins) ==
    LET cbs == ChanBins(c)
        n == Len(bins)
        m == Len(cbs)
        shp(x) == Len(x) = n /\ \A k \in 1..n : Len(x[k]) = m /\
                     \A f \in 1..m : Len(x[k][f]) = c.ncorr
        Cells == (1..n) \X (1..m) \X (1..c.ncorr)
        Sm(z) == Samples(c, bins[z[1]], cbs[z[2]], z[3])
    IN
    (IF ~c.hasvis THEN Fail("vis-absent", ~o.hasvis) ELSE
     IF ~(o.hasvis /\ shp(o.vis)) THEN {"vis-shape"} ELSE
     Fail("vis", \A z \in Cells :
        LET sm == Sm(z)
            ws == SumOver(sm, LAMBDA s : Wt(c, s, z[3]))
            v == o.vis[z[1]][z[2]][z[3]]
            tot == CSumOver(sm, LAMBDA s :
                      CScale(Wt(c, s, z[3]), c.vis[s[1]][s[2]][z[3]]))
        IN IF ws = 0 THEN v = CZero ELSE CNear(v, tot, ws, S, 1))) \cup
    (IF ~c.hasflag THEN Fail("flag-absent", ~o.hasflag) ELSE
     IF ~(o.hasflag /\ shp(o.flag)) THEN {"flag-shape"} ELSE
     Fail("flag", \A z \in Cells :
        o.flag[z[1]][z[2]][z[3]] =
          (IF SampleFlagged(c, bins[z[1]], cbs[z[2]], z[3]) THEN 1 ELSE 0)))
    \cup
    (IF ~c.hasws THEN Fail("weight_spectrum-absent", ~o.hasws) ELSE
     IF ~(o.hasws /\ shp(o.ws)) THEN {"weight_spectrum-shape"} ELSE
     Fail("weight_spectrum", \A z \in Cells :
        o.ws[z[1]][z[2]][z[3]] =
          S * SumOver(Sm(z), LAMBDA s : c.ws[s[1]][s[2]][z[3]]))) \cup
    (IF ~c.hasss THEN Fail("sigma_spectrum-absent", ~o.hasss) ELSE
     IF ~(o.hasss /\ shp(o.ss2)) THEN {"sigma_spectrum-shape"} ELSE
     Fail("sigma_spectrum", \A z \in Cells :
        LET sm == Sm(z)
            ws == SumOver(sm, LAMBDA s : Wt(c, s, z[3]))
            num == SumOver(sm, LAMBDA s :
                      Sq(c.ss[s[1]][s[2]][z[3]] * Wt(c, s, z[3])))
            v == o.ss2[z[1]][z[2]][z[3]]
        IN IF ws = 0 THEN v = 0 ELSE Near(v, num, ws*ws, S, 2)))

MustRaise(c) == Duplicates(c) \/ FlagsDisagree(c)

Verdict(c, o, e, bins) ==
    IF MustRaise(c) THEN Fail("must-raise-ValueError", e = "ValueError")
    ELSE IF e # "" THEN {"raised", e}
    ELSE RowVerdict(c, o, bins) \cup ChanVerdict(c, o) \cup
         CellVerdict(c, o, bins) \cup
         Fail("dtypes", o.dtypes_ok) \cup
         Fail("inputs-unchanged", o.inputs_ok) \cup
         Fail("metadata", o.meta_ok)
=============================================================================

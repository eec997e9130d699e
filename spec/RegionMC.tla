------------------------------ MODULE RegionMC -------------------------------
(* Histories of mask operations on three overlapping regions with a cache   *)
(* for the filled mask, as an implementation would keep: every read must    *)
(* agree with the current mask and weights.  Emits the operation histories. *)
EXTENDS Region
CONSTANTS Depth, N
S == 60
B(xl, xu, yl, yu) == [t |-> "box", hasm |-> FALSE, um |-> <<>>,
                      pts |-> << <<xl, yl>>, <<xl, yu>>, <<xu, yu>>, <<xu, yl>> >>]
H(p) == [t |-> "hull", hasm |-> FALSE, um |-> <<>>, pts |-> p]
Regs == << B(-2, -1, 0, 1), H(<< <<-1, 1>>, <<1, 1>>, <<0, 3>> >>), B(-1, 0, 1, 2) >>
M1 == << <<1, -1>>, <<2, 0>> >>
Ops == {[op |-> "norm", rs |-> rs, only |-> o] : rs \in {<<1, 2>>, <<1, 2, 3>>}, o \in BOOLEAN}
       \cup {[op |-> "set", r |-> r, m |-> m] : r \in {1, 2}, m \in {M1, <<>>}}
       \cup {[op |-> "reset", r |-> r] : r \in {1, 2}}
       \cup {[op |-> "read", r |-> r] : r \in {1, 2}}
Full == [r \in DOMAIN Regs |-> HullMask(Pts(Regs[r]))]
VARIABLES ws, cache, h
vars == <<ws, cache, h>>
Init == /\ ws = [r \in DOMAIN Regs |-> Ones(Full[r], S)]
        /\ cache = [r \in DOMAIN Regs |-> [ok |-> FALSE]]
        /\ h = <<>>
Fill(r) == [p \in Pixels(Window(Pts(Regs[r]))) |-> IF p \in DOMAIN ws[r] THEN ws[r][p] ELSE 0]
Drop(rs) == [r \in DOMAIN Regs |-> IF r \in rs THEN [ok |-> FALSE] ELSE cache[r]]
Do(op) ==
    /\ h' = Append(h, op)
    /\ ws' = Step(Regs, ws, op, S)
    /\ cache' = CASE op.op = "read" -> [cache EXCEPT ![op.r] = IF @.ok THEN @ ELSE [ok |-> TRUE, v |-> Fill(op.r)]]
                  [] op.op = "norm" -> Drop(ToSet(op.rs))
                  [] OTHER -> Drop({op.r})
Next == Len(h) < Depth /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
Fresh == \A r \in DOMAIN Regs : cache[r].ok => cache[r].v = Fill(r)
Normalised == LET k == Len(h) IN
    IF k > 0 THEN (IF h[k].op = "norm" /\ ~h[k].only THEN
        \A p \in UNION {DOMAIN ws[r] : r \in ToSet(h[k].rs)} :
            SumOver({r \in ToSet(h[k].rs) : p \in DOMAIN ws[r]}, LAMBDA r : ws[r][p]) = S
        ELSE TRUE) ELSE TRUE
Contained == \A r \in DOMAIN Regs : DOMAIN ws[r] \subseteq Full[r]
Emit == Len(h) = Depth => EmitJson([ops |-> h])
------------------------------------------------------------------------------
(* The lattice part: hull masks, tilings, padding and bounding boxes        *)
Box(a, b) == [xl |-> a, xu |-> a + b - 1, yl |-> 0, yu |-> 0]
Tiles(w, n) ==
    LET dx == Ceil(Sx(w), n)
        dy == Ceil(Sy(w), n)
        all == {[xl |-> w.xl + i * dx, xu |-> MinI(w.xu, w.xl + (i + 1) * dx - 1),
                 yl |-> w.yl + j * dy, yu |-> MinI(w.yu, w.yl + (j + 1) * dy - 1)] :
                i \in 0..(n - 1), j \in 0..(n - 1)} IN
    SetToSeq({t \in all : t.xl <= t.xu /\ t.yl <= t.yu})
PadDesign(w, nx, ny) ==
    LET cx == MaxI((w.xl + w.xu) \div 2, w.xu - (nx - nx \div 2 - 1))
        cy == MaxI((w.yl + w.yu) \div 2, w.yu - (ny - ny \div 2 - 1)) IN
    [xl |-> cx - nx \div 2, xu |-> cx - nx \div 2 + nx - 1,
     yl |-> cy - ny \div 2, yu |-> cy - ny \div 2 + ny - 1]
Boxes == {[xl |-> a, xu |-> a + i - 1, yl |-> b, yu |-> b + j - 1] :
          a \in {-3, 0, 2}, b \in {-2, 1}, i \in 1..N, j \in 1..N}
ASSUME \A w \in Boxes : \A n \in 1..4 : SplitOk(w, n, Tiles(w, n))
ASSUME \A w \in Boxes : \A i, j \in 0..3 : PadOk(w, Sx(w) + i, Sy(w) + j, PadDesign(w, Sx(w) + i, Sy(w) + j))
Lattice == {<<x, y>> : x \in -1..1, y \in 0..2}
Triangles == {T \in kSubset(3, Lattice) : \E a, b, p \in T : Side(a, b, p) # 0}
Swap(M) == {<<p[2], p[1]>> : p \in M}
ASSUME \A T \in Triangles : LET M == HullMask(T) IN
    /\ T \subseteq Swap(M) /\ HullMask(Swap(M)) = M
    /\ Pixels(Window(T)) = HullMask(WPts(Window(T)))
    /\ ~Separated(T, Swap(M), 0, 1)
    \* away from each other: no common pixel; a common pixel: not separated
    /\ \A U \in Triangles : Separated(T, U, 0, 1) => M \cap HullMask(U) = {}
=============================================================================

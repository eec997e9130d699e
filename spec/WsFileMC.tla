------------------------------ MODULE WsFileMC ------------------------------
(* The reader as a state machine over lines: it must agree with the         *)
(* declarative meaning of the whole file after every line.  Emits every     *)
(* sequence of line kinds.                                                  *)
EXTENDS WsFile
CONSTANTS NLines
Col(n, p) == [name |-> n, def |-> [p |-> p, v |-> 7]]
F(p, ok) == [p |-> p, ok |-> ok, v |-> 3]
Headers == {[k |-> "header", ok |-> ok, cols |-> c] : ok \in BOOLEAN, c \in
    { <<Col("Name", FALSE), Col("I", FALSE)>>, <<Col("Ra", TRUE), Col("I", TRUE)>>,
      <<Col("Ra", FALSE), Col("Nonsense", FALSE)>>, <<Col("Ra", FALSE), Col("Dec", FALSE)>> }}
Rows == {[k |-> "row", f |-> s] : s \in
    { <<F(TRUE, TRUE), F(TRUE, TRUE)>>, <<F(TRUE, TRUE)>>,
      <<F(FALSE, TRUE), F(TRUE, TRUE)>>, <<F(TRUE, TRUE), F(FALSE, TRUE)>>,
      <<F(TRUE, FALSE), F(TRUE, TRUE)>> }}
Other == {[k |-> "blank"], [k |-> "comment"]}
\* machine: st in {"pre", "body", "failed"}, rows read so far
VARIABLES ls, st, n, errline
vars == <<ls, st, n, errline>>
Init == ls = <<>> /\ st = "pre" /\ n = 0 /\ errline = 0
HeaderOk(h) == h.k = "header" /\ h.ok /\ \A i \in DOMAIN h.cols : h.cols[i].name \in Known
Read(l) ==
    /\ ls' = Append(ls, l)
    /\ CASE st = "pre" /\ l.k \in {"blank", "comment"} -> UNCHANGED <<st, n, errline>>
         [] st = "pre" /\ HeaderOk(l) -> st' = "body" /\ UNCHANGED <<n, errline>>
         [] st = "body" -> LET h == ls[FirstLine(ls)]
                               r == RowState(h.cols, l) IN
              IF r.ok THEN n' = n + 1 /\ UNCHANGED <<st, errline>>
              ELSE st' = "failed" /\ n' = n /\
                   errline' = (IF r.line THEN Len(ls) + 1 ELSE 0)
         [] OTHER -> st' = "failed" /\ UNCHANGED <<n, errline>>
Next == /\ Len(ls) < NLines /\ st # "failed"
        /\ \/ st = "pre" /\ \E l \in Headers \cup Other : Read(l)
           \/ st = "pre" /\ \E l \in Rows : Read(l)
           \/ st = "body" /\ \E l \in Rows : Read(l)
Spec == Init /\ [][Next]_vars
Agrees == LET p == Parse(ls) IN
    /\ (p.err # "") = (st # "body")
    /\ st = "body" => \A j \in DOMAIN p.vals : Len(p.vals[j]) = n
    /\ st = "failed" => p.line = errline
Kind(l) == IF l.k = "row" THEN [k |-> "row", n |-> Len(l.f),
              bad |-> (l.f[1].p /\ ~l.f[1].ok), miss |-> [i \in DOMAIN l.f |-> ~l.f[i].p]]
           ELSE IF l.k = "header" THEN [k |-> "header", ok |-> l.ok,
              names |-> [i \in DOMAIN l.cols |-> l.cols[i].name],
              def |-> [i \in DOMAIN l.cols |-> l.cols[i].def.p]]
           ELSE [k |-> l.k]
Emit == Len(ls) > 0 => EmitJson([lines |-> [i \in DOMAIN ls |-> Kind(ls[i])]])
=============================================================================

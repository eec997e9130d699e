------------------------------- MODULE WsFile -------------------------------
(* WSClean component files.  A file is a sequence of lines                   *)
(*   [k |-> "blank"], [k |-> "comment"],                                     *)
(*   [k |-> "header", cols |-> <<[name, def]...>>, ok |-> BOOLEAN]           *)
(*   [k |-> "row", f |-> <<field...>>]                                       *)
(* A field or default is [p |-> present, v |-> value]; values are already   *)
(* the integers (or strings, booleans, sequences) they denote.              *)
EXTENDS Num

Known == {"Name", "Type", "Ra", "Dec", "I", "SpectralIndex", "LogarithmicSI",
          "ReferenceFrequency", "MajorAxis", "MinorAxis", "Orientation"}
\* columns whose missing values are zero (or empty)
Zero == {"I", "ReferenceFrequency", "MajorAxis", "MinorAxis", "Orientation"}
Empty == {"Name", "Type"}

\* index of the first line that is neither blank nor a comment, or 0
FirstLine(ls) == LET s == {i \in DOMAIN ls : ls[i].k \notin {"blank", "comment"}} IN
                 IF s = {} THEN 0 ELSE Min(s)
Cell(col, fld) ==
    IF fld.p THEN [ok |-> fld.ok, v |-> fld.v, line |-> FALSE]
    ELSE IF col.def.p THEN [ok |-> TRUE, v |-> col.def.v, line |-> FALSE]
    ELSE IF col.name \in Zero THEN [ok |-> TRUE, v |-> 0, line |-> FALSE]
    ELSE IF col.name \in Empty THEN [ok |-> TRUE, v |-> "", line |-> FALSE]
    ELSE [ok |-> FALSE, v |-> 0, line |-> TRUE]
\* [ok, line]: does the row parse; does the error name its line
RowState(cols, row) ==
    IF Len(row.f) # Len(cols) THEN [ok |-> FALSE, line |-> TRUE]
    ELSE LET bad == {i \in DOMAIN cols : ~Cell(cols[i], row.f[i]).ok} IN
         IF bad = {} THEN [ok |-> TRUE, line |-> FALSE]
         ELSE [ok |-> FALSE, line |-> Cell(cols[Min(bad)], row.f[Min(bad)]).line]

\* the meaning of a file: [err, line, names, vals]
Parse(ls) ==
    LET h == FirstLine(ls)
        E(n) == [err |-> "ValueError", line |-> n, names |-> <<>>, vals |-> <<>>] IN
    IF h = 0 THEN E(0)
    ELSE IF ls[h].k # "header" \/ ~ls[h].ok THEN E(0)
    ELSE IF \E i \in DOMAIN ls[h].cols : ls[h].cols[i].name \notin Known THEN E(0)
    ELSE LET cols == ls[h].cols
             bad == {i \in (h + 1)..Len(ls) : ~RowState(cols, ls[i]).ok} IN
         IF bad # {} THEN E(IF RowState(cols, ls[Min(bad)]).line THEN Min(bad) ELSE 0)
         ELSE [err |-> "", line |-> 0,
               names |-> [j \in DOMAIN cols |-> cols[j].name],
               vals |-> [j \in DOMAIN cols |->
                   [i \in 1..(Len(ls) - h) |-> Cell(cols[j], ls[h + i].f[j]).v]]]

WsFileVerdict(c, o, e) ==
    IF e # "" THEN {"raised", e}
    ELSE LET p == Parse(c.lines) IN
      IF p.err # "" THEN Fail("must-raise-ValueError", o.err = p.err) \cup
           Fail("line-named", p.line = 0 \/ o.line = p.line)
      ELSE Fail("raised", o.err = "") \cup
           (IF o.err # "" THEN {} ELSE
            Fail("columns", o.names = p.names) \cup
            Fail("values", o.vals = p.vals))
=============================================================================

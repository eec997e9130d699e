------------------------------ MODULE AssignMC ------------------------------
(* All short programs, executed statement by statement.                     *)
EXTENDS Assign
CONSTANTS NStmt
VARIABLES prog, s
vars == <<prog, s>>
I(n) == [k |-> "int", v |-> ToString(n), e |-> <<>>]
Exprs == {I(1), [k |-> "str", v |-> "a", e |-> <<>>],
          [k |-> "tuple", v |-> "", e |-> <<I(2), I(3)>>],
          [k |-> "list", v |-> "", e |-> <<I(4)>>],
          [k |-> "call", v |-> "slice", e |-> <<I(5)>>],
          [k |-> "call", v |-> "slice", e |-> <<[k |-> "call", v |-> "slice", e |-> <<I(1), I(2), NoneV>>], NoneV>>],
          [k |-> "call", v |-> "open", e |-> <<I(5)>>],
          [k |-> "var", v |-> "a", e |-> <<>>],
          [k |-> "list", v |-> "", e |-> <<[k |-> "call", v |-> "slice", e |-> <<I(5)>>]>>]}
Tg == {[k |-> "name", n |-> <<"a">>], [k |-> "seq", n |-> <<"a", "b">>], [k |-> "seq", n |-> <<"b">>],
       [k |-> "seq", n |-> <<"a", "a">>], [k |-> "other", n |-> <<>>]}
TT == {<<t>> : t \in Tg} \cup {<<[k |-> "name", n |-> <<"b">>], t>> : t \in Tg}
Stmts == {[k |-> "assign", t |-> t, v |-> x] : t \in TT, x \in Exprs} \cup
         {[k |-> "expr", t |-> <<>>, v |-> I(1)]}
Init == prog = <<>> /\ s = Empty
Next == /\ Len(prog) < NStmt /\ s.err = ""
        /\ \E x \in Stmts : prog' = Append(prog, x) /\ s' = Stmt(s, x)
Spec == Init /\ [][Next]_vars
\* executing the whole at once is the same; an earlier binding lasts until
\* it is replaced; only bound names appear
Same == Exec(Empty, prog) = s
Names == s.err = "" => DOMAIN s.env = UNION {UNION {ToSet(prog[i].t[j].n) : j \in DOMAIN prog[i].t} : i \in DOMAIN prog}
LastWins == (s.err = "" /\ prog # <<>>) => \A j \in DOMAIN prog[Len(prog)].t :
    (prog[Len(prog)].t[j].k = "name" /\ j = Len(prog[Len(prog)].t))
        => s.env[prog[Len(prog)].t[j].n[1]] = Value(prog[Len(prog)].v)
RotOk == \A n \in 1..6 : \A c \in 0..8 : \A d \in 0..(n-1) :
    (Src(n, c, d) + c) % n = d
Emit == (Len(prog) = NStmt \/ s.err # "") => EmitJson(prog)
=============================================================================

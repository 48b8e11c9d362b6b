------------------------------ MODULE MCResults ------------------------------
(* All histories of Depth operations on results of NCalls calls, of which the    *)
(* calls 0 and 1 say the same. They are emitted, to be replayed.                 *)
EXTENDS Results, Json, CSV, IOUtils
CONSTANTS NCalls, Depth, EmitOn
VARIABLES objs, inner, hist
vars == <<objs, inner, hist>>
Says(c) == IF c = 0 THEN 1 ELSE c
Init == objs = << >> /\ inner = << >> /\ hist = << >>
Ops == {[k |-> "call", c |-> c, base |-> Says(c)] : c \in 0..(NCalls - 1)} \cup
       {[k |-> k, i |-> i] : k \in {"copy", "deep", "top", "inner"}, i \in 1..Len(objs)}
Do(op) == LET r == Step(objs, inner, op) IN
          /\ objs' = r[1] /\ inner' = r[2] /\ hist' = Append(hist, op)
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops : Do(op)
        /\ IF EmitOn /\ Len(hist') = Depth THEN CSVWrite("%1$s", <<ToJson([ops |-> hist'])>>, IOEnv.OUT)
           ELSE TRUE
Spec == Init /\ [][Next]_vars

K == 1..Len(objs)
Eq(i, j) == Equal(inner, objs[i], objs[j])
Equivalence == /\ \A i \in K : Eq(i, i)
               /\ \A i, j \in K : Eq(i, j) => Eq(j, i)
               /\ \A i, j, k \in K : (Eq(i, j) /\ Eq(j, k)) => Eq(i, k)
Edited(o) == o.top > 0 \/ inner[o.grp] > 0
(* what was not edited is equal exactly if the calls said the same *)
Plain == \A i, j \in K : (~Edited(objs[i]) /\ ~Edited(objs[j])) =>
                         (Eq(i, j) <=> objs[i].base = objs[j].base)
(* an edit changes its object, and no other unless they share *)
LastOp == hist'[Len(hist')]
EditLocal == [][\A i \in K :
    LET op == LastOp IN
    (op.k \in {"call", "copy", "deep"}) => Content(inner', objs'[i]) = Content(inner, objs[i])]_vars
EditOthers == [][LET op == LastOp IN
    op.k \in {"top", "inner"} =>
        \A j \in K : (Content(inner', objs'[j]) # Content(inner, objs[j])) <=>
            (j = op.i \/ (op.k = "inner" /\ objs[j].grp = objs[op.i].grp))]_vars
(* a copy is equal to what it was made of *)
CopyEqual == [][LET op == LastOp IN op.k \in {"copy", "deep"} =>
    Content(inner', objs'[Len(objs')]) = Content(inner', objs'[op.i])]_vars

(* what is seen of a correct program is accepted, and every other answer is not *)
Bit(b) == IF b THEN 1 ELSE 0
Honest == [eq |-> [i \in K |-> [j \in K |-> Bit(Eq(i, j))]],
           ne |-> [i \in K |-> [j \in K |-> 1 - Bit(Eq(i, j))]],
           first |-> [i \in K |-> Min({j \in K : Eq(i, j)})],
           fp |-> [i \in K |-> Content(inner, objs[i])],
           text |-> [i \in K |-> Content(inner, objs[i])]]
Accepts == SeenOK(objs, inner, Honest) = "none"
Rejects == \A i, j \in K :
    /\ SeenOK(objs, inner, [Honest EXCEPT !.eq[i][j] = 1 - @]) # "none"
    /\ SeenOK(objs, inner, [Honest EXCEPT !.ne[i][j] = 1 - @]) # "none"
    /\ ~Eq(i, j) => SeenOK(objs, inner, [Honest EXCEPT !.fp[i] = Honest.fp[j]]) # "none"
=============================================================================

------------------------------- MODULE Results -------------------------------
(* Results of statistical tests as values, which a program holds, copies, edits  *)
(* and compares. An object is [base, call, top, grp]: base is what the call said, *)
(* call which call it was, top its edit of an attribute (0: none), and grp the   *)
(* group of objects which share its inner values; in[grp] is how often these     *)
(* were edited. Copying shares the inner values, deep copies and pickles do not. *)
EXTENDS Num

Content(inner, o) == [base |-> o.base, top |-> o.top, in |-> inner[o.grp]]

(* the effect of one operation on <<objs, inner>>; base is only of "call" *)
Step(objs, inner, op) ==
    IF op.k = "call" THEN
        <<Append(objs, [base |-> op.base, call |-> op.c, top |-> 0, grp |-> Len(inner) + 1]),
          Append(inner, 0)>>
    ELSE IF op.k = "copy" THEN <<Append(objs, objs[op.i]), inner>>
    ELSE IF op.k = "deep" THEN
        <<Append(objs, [objs[op.i] EXCEPT !.grp = Len(inner) + 1]), Append(inner, inner[objs[op.i].grp])>>
    ELSE IF op.k = "top" THEN <<[objs EXCEPT ![op.i].top = @ + 1], inner>>
    ELSE <<objs, [inner EXCEPT ![objs[op.i].grp] = @ + 1]>>

Equal(inner, a, b) == Content(inner, a) = Content(inner, b)

(* What is observed after a step: eq[i][j], ne[i][j]: whether objects i and j     *)
(* compare equal, unequal; first[i]: the index of object i in the list of all;    *)
(* fp[i]: all its contents; text[i]: what it prints.                              *)
SeenOK(objs, inner, e) ==
    LET K == 1..Len(objs)
        same == [i \in K |-> [j \in K |-> Equal(inner, objs[i], objs[j])]]
    IN IF \E i, j \in K : e.eq[i][j] # (IF same[i][j] THEN 1 ELSE 0) THEN "equality"
       ELSE IF \E i, j \in K : e.ne[i][j] # (IF same[i][j] THEN 0 ELSE 1) THEN "inequality"
       ELSE IF \E i, j \in K : (e.fp[i] = e.fp[j]) # same[i][j] THEN "contents"
       ELSE IF \E i \in K : e.first[i] # Min({j \in K : same[i][j]}) THEN "membership"
       ELSE IF \E i, j \in K : same[i][j] /\ objs[i].call = objs[j].call /\ e.text[i] # e.text[j]
            THEN "text"
       ELSE "none"

(* Accessors of a result of several: keys, and by key its statistic and p-value;  *)
(* ranks[i] orders the p-values as the numbers they are.                          *)
AccessOK(a) ==
    LET m == Len(a.keys) IN
    IF a.statistics # a.stats THEN "statistics"
    ELSE IF a.pvalues # a.ps THEN "pvalues"
    ELSE IF m = 0 THEN "none"
    ELSE LET least == Min({a.ranks[i] : i \in 1..m})
             i == Min({k \in 1..m : a.ranks[k] = least})
         IN IF a.minkey # a.keys[i] \/ a.minstat # a.stats[i] \/ a.minp # a.ps[i] THEN "min"
            ELSE "none"

RECURSIVE Fold(_, _, _, _)
(* the first bad step of a history, and why *)
Fold(objs, inner, steps, i) ==
    IF i > Len(steps) THEN [bad |-> 0, why |-> "none"]
    ELSE LET s == steps[i]
             r == TLCEval(Step(objs, inner, s.op))
             w == SeenOK(r[1], r[2], s.seen)
             acc == {AccessOK(s.acc[k]) : k \in 1..Len(s.acc)} \ {"none"}
         IN IF w # "none" THEN [bad |-> i, why |-> w]
            ELSE IF acc # {} THEN [bad |-> i, why |-> CHOOSE x \in acc : TRUE]
            ELSE Fold(r[1], r[2], steps, i + 1)

(* an error survives being sent to another process *)
ErrorOK(e) == IF e.type # e.type2 THEN "error type" ELSE IF e.text # e.text2 THEN "error text"
              ELSE IF e.fields # e.fields2 THEN "error fields" ELSE "none"
ResultsVerdict(e) ==
    IF e.kind = "history" THEN Fold(<< >>, << >>, e.steps, 1)
    ELSE LET w == ErrorOK(e) IN [bad |-> IF w = "none" THEN 0 ELSE 1, why |-> w]
=============================================================================

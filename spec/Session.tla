------------------------------ MODULE Session ------------------------------
(* A process which calls statistical tests, and holds on to the results. A call  *)
(* is an element of a library; its outcome must be a function of it.             *)
EXTENDS Num

(* Validation of one recorded session: the steps [call, out, held, inputs], in   *)
(* which out is the outcome of the call, held the outcomes as they are now of    *)
(* earlier steps (of all, in the last step), and inputs whether the given        *)
(* sequences are still as they were. memo[c] is the outcome of c in a fresh process. The result is 0, or the *)
(* first step which deviates, and what deviates.                                 *)
StepBad(memo, steps, i) ==
    LET s == steps[i] IN
    IF s.out # memo[s.call] THEN "outcome"
    ELSE IF \E j \in 1..Len(s.held) : s.held[j][2] # memo[steps[s.held[j][1]].call] THEN "held"
    ELSE IF \E j \in 1..Len(s.inputs) : s.inputs[j] # 1 THEN "input"
    ELSE "none"
SessionVerdict(memo, steps) ==
    LET bad == {i \in 1..Len(steps) : StepBad(memo, steps, i) # "none"}
    IN IF bad = {} THEN [bad |-> 0, why |-> "none"]
       ELSE [bad |-> Min(bad), why |-> StepBad(memo, steps, Min(bad))]
=============================================================================

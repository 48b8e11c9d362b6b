----------------------------- MODULE MCSession -----------------------------
(* Sessions of a process with a bounded memo (least recently used out first),    *)
(* whose key for a call is Key(c): pure if and only if no two calls with         *)
(* different outcomes have one key. All sessions of Depth calls in which every   *)
(* call is of one group are emitted; where a memo merges two calls of a group,   *)
(* one of them shows it (ShortOK).                                               *)
EXTENDS Session, Json, CSV, IOUtils
CONSTANTS NCalls, Group, Cap, Depth, EmitOn, Coarse
Calls == 0..(NCalls - 1)
GroupOf(c) == c \div Group
Outcome(c) == c
Key(c) == IF Coarse THEN c \div 2 ELSE c
VARIABLES memo, hist, outs
vars == <<memo, hist, outs>>
Init == memo = << >> /\ hist = << >> /\ outs = << >>
Has(k) == \E i \in 1..Len(memo) : memo[i][1] = k
Get(k) == memo[CHOOSE i \in 1..Len(memo) : memo[i][1] = k][2]
Do(c) ==
    LET k == Key(c)
        v == IF Has(k) THEN Get(k) ELSE Outcome(c)
        rest == SelectSeq(memo, LAMBDA e : e[1] # k)
        kept == IF Len(rest) >= Cap THEN Tail(rest) ELSE rest
    IN /\ memo' = Append(kept, <<k, v>>)
       /\ hist' = Append(hist, c)
       /\ outs' = Append(outs, v)
Next == /\ Len(hist) < Depth
        /\ \E c \in Calls : (IF hist = << >> THEN TRUE ELSE GroupOf(c) = GroupOf(hist[1])) /\ Do(c)
        /\ IF EmitOn /\ Len(hist') = Depth THEN CSVWrite("%1$s", <<ToJson([calls |-> hist'])>>, IOEnv.OUT)
           ELSE TRUE
Spec == Init /\ [][Next]_vars

Pure == \A i \in 1..Len(hist) : outs[i] = Outcome(hist[i])
(* a coarse memo is impure in every session which has two merged calls in a row *)
ShortOK == Coarse => \A i \in 2..Len(hist) :
    (hist[i] # hist[i - 1] /\ Key(hist[i]) = Key(hist[i - 1])) => ~Pure
(* and the held results only ever grow *)
Held == [][Len(outs') = Len(outs) + 1 /\ SubSeq(outs', 1, Len(outs)) = outs]_vars
=============================================================================

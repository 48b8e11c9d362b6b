----------------------------- MODULE MCThreads -----------------------------
(* All schedules of K calls of Steps steps with at most Bound preemptions. A     *)
(* call first puts its input where it works, and computes its outcome from what  *)
(* is there at its last step. Where that is shared (Shared), every schedule in   *)
(* which another call starts within it shows it; else none does.                 *)
EXTENDS Threads, Json, CSV, IOUtils
CONSTANTS K, Steps, Bound, Shared, EmitOn
Procs == 1..K
VARIABLES pos, cur, pre, work, outs, turns
vars == <<pos, cur, pre, work, outs, turns>>
Cell(p) == IF Shared THEN 1 ELSE p
Init == /\ pos = [p \in Procs |-> 0] /\ cur = 0 /\ pre = 0
        /\ work = [p \in Procs |-> 0] /\ outs = [p \in Procs |-> 0] /\ turns = << >>
Done == \A p \in Procs : pos[p] = Steps
Run(p) ==
    /\ pos[p] < Steps
    /\ LET away == cur # 0 /\ cur # p /\ pos[cur] < Steps IN
       /\ away => pre < Bound
       /\ pre' = IF away THEN pre + 1 ELSE pre
    /\ cur' = p
    /\ pos' = [pos EXCEPT ![p] = @ + 1]
    /\ work' = IF pos[p] = 0 THEN [work EXCEPT ![Cell(p)] = p] ELSE work
    /\ outs' = IF pos[p] = Steps - 1 THEN [outs EXCEPT ![p] = work'[Cell(p)]] ELSE outs
    /\ turns' = IF cur = p THEN [turns EXCEPT ![Len(turns)] = <<p, pos[p] + 1>>]
                ELSE Append(turns, <<p, pos[p] + 1>>)
Next == /\ \E p \in Procs : Run(p)
        /\ IF EmitOn /\ Done' /\ pre' > 0 THEN CSVWrite("%1$s", <<ToJson([turns |-> turns'])>>, IOEnv.OUT) ELSE TRUE
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Lens == [p \in Procs |-> Steps]
ScheduleOK == Done => ValidSchedule(turns, Lens)
Pure == ~Shared => \A p \in Procs : pos[p] = Steps => outs[p] = p
(* p started within q, which ended later *)
Within(p, q) == \E i \in 1..Len(turns) : /\ turns[i][1] = p /\ PosAfter(turns, i - 1, p) = 0
                                         /\ PosAfter(turns, i - 1, q) \in 1..(Steps - 1)
SharedShows == Shared /\ Done => ((\E p \in Procs : outs[p] # p) <=> \E p, q \in Procs : p # q /\ Within(p, q))
OverlapOK == Done => (Overlaps(turns, Lens) = {} <=> pre = 0)
Ends == <>Done
=============================================================================

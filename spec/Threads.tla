------------------------------ MODULE Threads ------------------------------
(* Calls of statistical tests which overlap. A call is a process of Len steps;   *)
(* a scheduler runs one at a time, for as many steps as it likes. Every call     *)
(* keeps to its own working state, so that its outcome is that of the call alone *)
(* in every schedule.                                                            *)
EXTENDS Num

(* A schedule is a sequence of turns [p, upto]: p runs until it has done upto.   *)
(* Valid: a turn resumes where its process was, and does not go back; in the end *)
(* all are at their ends.                                                        *)
PosAfter(turns, i, p) ==
    LET mine == SelectSeq(SubSeq(turns, 1, i), LAMBDA t : t[1] = p)
    IN IF mine = << >> THEN 0 ELSE mine[Len(mine)][2]
ValidSchedule(turns, lens) ==
    /\ \A i \in 1..Len(turns) : turns[i][2] >= PosAfter(turns, i - 1, turns[i][1])
    /\ \A p \in 1..Len(lens) : PosAfter(turns, Len(turns), p) = lens[p]
(* processes which were on their way at the same time *)
Overlaps(turns, lens) ==
    {p \in 1..Len(lens) : \E i \in 1..Len(turns) :
        /\ PosAfter(turns, i, p) > 0 /\ PosAfter(turns, i, p) < lens[p]
        /\ \E j \in (i + 1)..Len(turns) : turns[j][1] # p /\ PosAfter(turns, j, p) < lens[p]}
=============================================================================

----------------------------- MODULE TraceParse -----------------------------
(* Validates how recorded runs read their data files. Values are numbered; the   *)
(* stored sequence, and the one which each test was given, are observed as runs. *)
EXTENDS Parse, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Pairs(s) == [i \in 1..Len(s) |-> <<s[i], 1>>]
(* a byte, or many of a byte whose bits are equal, as runs of values *)
RunsOfBytes(r) == IF r[1] \in {0, 255} THEN << <<BitsOfByte(r[1])[1] + 1, 8 * r[2]>> >>
                  ELSE FlattenSeq([j \in 1..r[2] |-> LET b == BitsOfByte(r[1]) IN
                                                     [i \in 1..8 |-> <<b[i] + 1, 1>>]])
Expected(e) ==
    IF e.form = "byteruns" THEN MergeRuns(FlattenSeq([i \in 1..Len(e.runs) |-> RunsOfBytes(e.runs[i])]))
    ELSE IF e.form = "bytes" THEN LET b == TLCEval(BitsOfBytes(e.lines)) IN MergeRuns([i \in 1..Len(b) |-> <<b[i] + 1, 1>>])
    ELSE MergeRuns(e.runs)
Verdict(e) ==
    LET want == TLCEval(Expected(e)) IN
    [id |-> e.id, ok |-> IF e.stored # want THEN "stored"
                         ELSE IF \E i \in 1..Len(e.seen) : e.seen[i] # want THEN "tested"
                         ELSE IF Len(e.seen) # e.ntests THEN "count" ELSE "ok"]
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ CSVWrite("%1$s", <<ToJson(Verdict(Trace[l]))>>, IOEnv.OUT)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

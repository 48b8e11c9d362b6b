---------------------------- MODULE TraceExample ----------------------------
(* Validates example-runs: bits are what the generator gave, tested what each    *)
(* test was given, rows what was printed.                                        *)
EXTENDS Print, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Asked(e) == SubSeq(e.seen, 1, e.n)
Verdict1(e) ==
    [id |-> e.id,
     ok |-> IF Len(e.seen) < e.n THEN "too few values"
            ELSE IF Cardinality(ToSet(Asked(e))) # 2 THEN (IF e.exit # 0 /\ e.tested = << >> THEN "ok" ELSE "not refused")
            ELSE IF e.exit # 0 THEN "exit"
            ELSE IF Len(e.tested) # 15 THEN "tests"
            ELSE IF \E i \in 1..15 : e.tested[i] # Asked(e) THEN "tested"
            ELSE IF ~PrintedOK(e.rows, e.omit, e.after, Asked(e), 80) THEN "printed" ELSE "ok"]
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ CSVWrite("%1$s", <<ToJson(Verdict1(Trace[l]))>>, IOEnv.OUT)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

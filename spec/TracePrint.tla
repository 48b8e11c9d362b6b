----------------------------- MODULE TracePrint -----------------------------
(* Validates printed sequences.                                                  *)
EXTENDS Print, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Verdict1(e) == [id |-> e.id, ok |-> IF PrintedOK(e.rows, e.omit, e.after, e.bits, e.cols) THEN 1 ELSE 0]
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ CSVWrite("%1$s", <<ToJson(Verdict1(Trace[l]))>>, IOEnv.OUT)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

----------------------------- MODULE TraceText -----------------------------
(* Validates the texts of results.                                               *)
EXTENDS Text, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Verdict1(e) == [id |-> e.id, bad |-> TextBad(e.o, e.failed, e.paras)]
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ CSVWrite("%1$s", <<ToJson(Verdict1(Trace[l]))>>, IOEnv.OUT)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

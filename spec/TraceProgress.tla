--------------------------- MODULE TraceProgress ---------------------------
(* Validates recorded progress: one log a line, with whether the results are    *)
(* those without progress (fp, alone), and how many warnings there were.        *)
EXTENDS Progress, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Verdict(e) == [id |-> e.id, bad |-> LogBad(e.log), same |-> e.fp = e.alone, quiet |-> e.nwarn = 0]
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ CSVWrite("%1$s", <<ToJson(Verdict(Trace[l]))>>, IOEnv.OUT)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

------------------------------ MODULE TraceAlgo ------------------------------
(* Validates recorded results of the public algorithms.                        *)
EXTENDS Battery, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Want(e) == CASE e.kind = "bm" -> LinearComplexity(e.b)
             [] e.kind = "rank" -> BitsRank(e.b, e.nrows, e.ncols)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET w == Want(Trace[l]) IN
           CSVWrite("%1$s", <<ToJson([id |-> Trace[l].id, ok |-> w = Trace[l].got, want |-> w])>>,
                    IOEnv.OUT)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

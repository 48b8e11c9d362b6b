------------------------------ MODULE TraceGate ------------------------------
(* Validates recorded outcomes of calls with default parameters.               *)
EXTENDS Gate, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Want(e) == GateOutcome(e.test, e.distinct, e.missing, e.n, e.consthead)
(* the minimum-input error carries the lengths *)
Carries(e) == e.status = "minimum" => e.carried = <<e.n, MinN(e.test)>>
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  w == Want(e) IN
           CSVWrite("%1$s", <<ToJson([id |-> e.id, ok |-> (w = e.status /\ Carries(e)),
                                      want |-> w])>>, IOEnv.OUT)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

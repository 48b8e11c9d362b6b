---------------------------- MODULE TraceThreads ----------------------------
(* Validates recorded schedules of overlapping calls: each is a schedule, and    *)
(* each call has the outcome which it has alone (memo).                          *)
EXTENDS Threads, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Verdict(e) ==
    [id |-> e.id,
     valid |-> e.free = 1 \/ ValidSchedule(e.turns, e.lens),
     over |-> IF e.free = 1 THEN Len(e.calls) ELSE Cardinality(Overlaps(e.turns, e.lens)),
     bad |-> SelectSeq([p \in 1..Len(e.calls) |-> p], LAMBDA p : e.outs[p] # e.alone[p]),
     input |-> e.inputs]
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ CSVWrite("%1$s", <<ToJson(Verdict(Trace[l]))>>, IOEnv.OUT)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

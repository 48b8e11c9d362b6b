---------------------------- MODULE TraceSession ----------------------------
EXTENDS Session, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Memo == ndJsonDeserialize(IOEnv.MEMO)     \* [call, out], of call 0 first
VARIABLE l
MemoFn == TLCEval([c \in 0..(Len(Memo) - 1) |-> Memo[c + 1].out])
ASSUME \A i \in 1..Len(Memo) : Memo[i].call = i - 1
Verdict(e) == LET v == SessionVerdict(MemoFn, e.steps) IN [id |-> e.id, bad |-> v.bad, why |-> v.why]
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ CSVWrite("%1$s", <<ToJson(Verdict(Trace[l]))>>, IOEnv.OUT)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

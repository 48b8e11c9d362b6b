----------------------------- MODULE TraceCalls -----------------------------
(* Validates a recorded history of calls of statistical tests, one line at a  *)
(* time. Each step consumes a line and writes its verdict; real-valued        *)
(* results are written as terms, which the harness evaluates and compares.    *)
EXTENDS Battery, Json, CSV, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Verdict(e) ==
    LET out == Outcome(e.test, e.enc, e.par) IN
    IF out # "ok" \/ e.status # "ok"
    THEN [id |-> e.id, out |-> out, why |-> IF out = e.status THEN << >> ELSE <<"status">>]
    ELSE
    LET x == Expect(e.test, e.enc, e.par, e.obs)
        obs == SetToSeq({f \in DOMAIN x.obs \cap DOMAIN e.obs : x.obs[f] # e.obs[f]})
        labels == {x.recs[i][1] : i \in DOMAIN x.recs}
        fails == ToSet(e.fail)
        recs == SetToSeq({x.recs[i][1] : i \in {j \in DOMAIN x.recs :
                    \/ x.recs[j][2] = "T" /\ x.recs[j][1] \in fails
                    \/ x.recs[j][2] = "F" /\ x.recs[j][1] \notin fails}}
                \cup (fails \ labels))
    IN [id |-> e.id, out |-> out,
        why |-> obs \o (IF "faces" \in DOMAIN e /\ e.faces # <<1, 0>> THEN <<"faces">> ELSE << >>),
        obs |-> [f \in ToSet(obs) |-> x.obs[f]],
        recwhy |-> IF e.impl = "ref" THEN << >> ELSE recs,
        recterms |-> SelectSeq(x.recs, LAMBDA r : r[2] = "term"),
        single |-> IF "stat" \in DOMAIN x THEN <<x.stat, x.p>> ELSE << >>,
        sub |-> IF "sub" \in DOMAIN x THEN x.sub ELSE << >>,
        reals |-> IF "reals" \in DOMAIN x THEN x.reals ELSE << >>]

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ CSVWrite("%1$s", <<ToJson(Verdict(Trace[l]))>>, IOEnv.OUT)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

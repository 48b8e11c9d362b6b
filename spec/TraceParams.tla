----------------------------- MODULE TraceParams -----------------------------
(* Validates the parameters in effect and the recommendations of recorded calls, *)
(* by the lengths of their sequences alone.                                       *)
EXTENDS Recs, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Verdict(e) ==
    LET q == Params(e.test, e.n, e.par, e.obs)
        (* recommendations are judged by the parameters in effect *)
        eff == [f \in DOMAIN q |-> IF f \in DOMAIN e.obs THEN e.obs[f] ELSE q[f]]
        rs == RecsOf(e.test, e.n, eff)
        fails == ToSet(e.fail)
        labels == {rs[i][1] : i \in DOMAIN rs}
    IN [id |-> e.id,
        params |-> SetToSeq({f \in DOMAIN q \cap DOMAIN e.obs : q[f] # e.obs[f]}),
        want |-> q,
        recwhy |-> SetToSeq({rs[i][1] : i \in {j \in DOMAIN rs :
                       \/ rs[j][2] = "T" /\ rs[j][1] \in fails
                       \/ rs[j][2] = "F" /\ rs[j][1] \notin fails}} \cup (fails \ labels)),
        recterms |-> SelectSeq(rs, LAMBDA r : r[2] = "term"),
        warnings |-> IF e.nwarn = (IF fails = {} THEN 0 ELSE 1) /\ ToSet(e.named) = fails
                        /\ Len(e.fail) = e.nfail
                     THEN << >> ELSE <<e.nwarn>>]
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ CSVWrite("%1$s", <<ToJson(IF Trace[l].status = "ok" THEN Verdict(Trace[l])
                                     ELSE [id |-> Trace[l].id, status |-> Trace[l].status])>>,
                    IOEnv.OUT)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

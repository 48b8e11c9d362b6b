----------------------------- MODULE TraceCharts -----------------------------
(* Validates the charts of recorded results; those numbers which are no integers, *)
(* and the reference distributions, are written as terms, which the harness       *)
(* evaluates and compares.                                                        *)
EXTENDS Charts, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
OnCharts(e) ==
    LET bits == TLCEval(Expand(e.enc))
        q == Params(e.test, Len(bits), e.par, e.obs)
        x == Expect(e.test, e.enc, e.par, e.obs)
        cs == ChartsOf(e.test, bits, e.par, q, x, e.o)
        bad == [i \in 1..Len(cs) |-> IF cs[i].name \in DOMAIN e.charts
                                     THEN ChartBad(e.charts[cs[i].name], cs[i]) ELSE "missing"]
        dist == IF "p" \in DOMAIN x THEN RefDist(x.p) ELSE NoDist
    IN [id |-> e.id,
        charts |-> [i \in 1..Len(cs) |-> <<cs[i].name, bad[i]>>],
        reals |-> [i \in 1..Len(cs) |-> cs[i].reals],
        stat |-> IF "stat" \in DOMAIN x THEN x.stat ELSE << >>,
        dist |-> <<dist.kind, dist.df, dist.at>>,
        distbad |-> IF e.refdist = << >> THEN ""
                    ELSE IF dist.kind = "none" THEN "there is no reference distribution"
                    ELSE IF dist.title \notin ToSet(e.refdist) THEN "it is of another distribution" ELSE "",
        mags |-> IF e.test = "spectral" THEN <<Magnitudes(DftTrunc(bits)), x.reals.threshold>> ELSE << >>,
        mean |-> IF e.test = "linear_complexity" THEN x.reals.mean_expect ELSE << >>]
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ CSVWrite("%1$s", <<ToJson(OnCharts(Trace[l]))>>, IOEnv.OUT)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

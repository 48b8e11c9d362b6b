----------------------------- MODULE TraceRange -----------------------------
(* Validates the ranges of recorded results: each number is recorded as the     *)
(* class of reals it is in, in the order statistic, p-value, statistic, ...     *)
EXTENDS Battery, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
(* how many results there must be *)
Count(e) == CASE e.test = "non_overlapping_template_matching" -> IF "template_size" \in DOMAIN e.obs THEN 2^e.obs.template_size ELSE Len(e.cls) \div 2
              [] e.test = "serial" -> 2
              [] e.test = "random_excursions" -> 8
              [] e.test = "random_excursions_variant" -> 18
              [] OTHER -> 1
StatOK(c) == c \in {"neg", "zero", "unit", "one", "pos"}     \* finite
POK(c) == c \in {"zero", "unit", "one"}                       \* within [0, 1]
Bad(e) == IF e.status # "ok" THEN <<"outcome">>
          ELSE IF Len(e.cls) # 2 * Count(e) THEN <<"count">>
          ELSE SetToSeq({i \in DOMAIN e.cls : IF i % 2 = 1 THEN ~StatOK(e.cls[i]) ELSE ~POK(e.cls[i])})
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               out == Outcome(e.test, e.enc, e.par)
           IN CSVWrite("%1$s", <<ToJson([id |-> e.id, bad |-> IF out = "ok" THEN Bad(e) ELSE << >>])>>,
                       IOEnv.OUT)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

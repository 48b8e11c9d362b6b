------------------------------ MODULE TraceGen ------------------------------
(* Validates recorded reads from generators: gens[i] = [kind, sign, digits],     *)
(* reads = sequence of <<i, value>>.                                             *)
EXTENDS Generators, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
First(e) == [i \in 1..Len(e.gens) |-> SeedState(e.gens[i].sign, e.gens[i].digits)]
Bad(e) ==
    LET r == FoldLeft(LAMBDA a, k :
               IF a.bad # 0 THEN a
               ELSE LET i == e.reads[k][1]
                        v == e.reads[k][2] IN
                    IF e.gens[i].kind = "python" THEN [a EXCEPT !.bad = IF v \in {0, 1} THEN 0 ELSE k]
                    ELSE LET x == TLCEval(NextState(a.st[i])) IN
                         [st |-> TLCEval([a.st EXCEPT ![i] = x]), bad |-> IF v = BitOf(Mod, x) THEN 0 ELSE k],
             [st |-> First(e), bad |-> 0], [k \in 1..Len(e.reads) |-> k])
    IN r.bad
Verdict(e) == [id |-> e.id, bad |-> Bad(e)]
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ CSVWrite("%1$s", <<ToJson(Verdict(Trace[l]))>>, IOEnv.OUT)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

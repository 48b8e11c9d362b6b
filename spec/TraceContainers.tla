--------------------------- MODULE TraceContainers ---------------------------
(* Validates recorded histories of operations on the containers, one history    *)
(* at a time: the results must be those of the state machine.                   *)
EXTENDS Containers, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Run(st0, ops, F(_, _)) ==
    FoldLeft(LAMBDA a, i :
               IF a.bad > 0 THEN a
               ELSE LET r == F(a.st, ops[i]) IN
                    IF r.res = ops[i].res THEN [st |-> TLCEval(r.st), bad |-> 0, want |-> << >>]
                    ELSE [st |-> a.st, bad |-> i, want |-> r.res],
             [st |-> st0, bad |-> 0, want |-> << >>], [i \in 1..Len(ops) |-> i])
PairsFn(prs) == [k \in {prs[i][1] : i \in 1..Len(prs)} |->
                   (CHOOSE i \in 1..Len(prs) : prs[i][1] = k /\ \A j \in (i + 1)..Len(prs) : prs[j][1] # k)]
Dup(s) == Cardinality(ToSet(s)) # Len(s)
Verdict(e) ==
    LET r == CASE e.kind = "bins" ->
                    IF Dup(e.init) THEN [bad |-> IF e.made = "e:ValueError" THEN 0 ELSE -1, want |-> <<"e:ValueError">>]
                    ELSE IF e.made # "ok" THEN [bad |-> -1, want |-> <<"ok">>]
                    ELSE Run(BinsInit(ToSet(e.init)), e.ops, BinsOp)
               [] e.kind = "floor" ->
                    LET f == PairsFn(e.init)
                    IN IF e.made # "ok" THEN [bad |-> -1, want |-> <<"ok">>]
                       ELSE Run([k \in DOMAIN f |-> e.init[f[k]][2]], e.ops, FloorOp)
               [] e.kind = "dlist" ->
                    IF e.made # "ok" THEN [bad |-> -1, want |-> <<"ok">>]
                    ELSE Run(<< >>, e.ops, LAMBDA s, o : ListOp(s, e.d, o))
    IN [id |-> e.id, bad |-> r.bad, want |-> r.want]
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ CSVWrite("%1$s", <<ToJson(Verdict(Trace[l]))>>, IOEnv.OUT)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

------------------------------- MODULE MCFloor -------------------------------
(* Every lookup in every mapping on a subset of Universe.                       *)
EXTENDS Containers, Json, CSV, IOUtils
CONSTANTS Universe, KeyMax
Keys == 0..KeyMax
VARIABLES m, last
vars == <<m, last>>
None == [op |-> "none"]
Init == /\ \E D \in SUBSET Universe : m = [d \in D |-> 100 + d]
        /\ last = None
        /\ CSVWrite("%1$s", <<ToJson([init |-> SetToSeq({<<d, m[d]>> : d \in DOMAIN m})])>>, IOEnv.OUT)
Next == \E k \in Keys : /\ last' = [op |-> "get", k |-> k, res |-> FloorOp(m, [op |-> "get", k |-> k]).res]
                        /\ m' = FloorOp(m, [op |-> "get", k |-> k]).st
Spec == Init /\ [][Next]_vars
Frozen == [][m' = m]_vars
(* a present key is its own floor; an absent one has that of its predecessor *)
FloorOK == last.op = "get" =>
    /\ last.k \in DOMAIN m => last.res = Value1(m[last.k])
    /\ last.k \notin DOMAIN m => last.res = FloorOp(m, [op |-> "get", k |-> last.k - 1]).res
                                 \/ (last.k = Min(Keys) /\ last.res = Error("KeyError"))
=============================================================================

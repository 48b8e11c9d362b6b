------------------------------- MODULE MCBins -------------------------------
(* All histories of up to Depth operations on a Bins, from every set of          *)
(* intervals out of Universe.                                                    *)
EXTENDS Containers, Json, CSV, IOUtils
CONSTANTS Depth
Universe == {0, 4, 12, 20}
Keys == {-5, 0, 2, 4, 7, 8, 9, 12, 20, 23}
VARIABLES init, m, hist
vars == <<init, m, hist>>
Ops == [op : {"get", "del"}, k : Keys] \cup [op : {"add"}, k : Keys, v : {5}]
       \cup [op : {"set"}, k : {Min(Keys)}, v : {7}]
       \cup [op : {"pop"}, k : {4, 7}] \cup [op : {"popitem", "clear", "copy"}]
       \cup [op : {"update"}, kv : {<< <<7, 3>>, <<8, 4>> >>}]
Init == /\ init \in SUBSET Universe
        /\ m = BinsInit(init)
        /\ hist = << >>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : hist' = Append(hist, o) /\ m' = TLCEval(BinsOp(m, o).st)
        /\ UNCHANGED init
        /\ IF Len(hist') = Depth
           THEN CSVWrite("%1$s", <<ToJson([init |-> SetToSeq(init), ops |-> hist'])>>, IOEnv.OUT)
           ELSE TRUE
Spec == Init /\ [][Next]_vars

Sum(f) == SumSeq([i \in 1..Cardinality(DOMAIN f) |-> f[Sorted(DOMAIN f)[i]]])
NearestOK == DOMAIN m # {} => \A k \in Keys :
    LET d == Nearest(DOMAIN m, k) IN
    /\ k \in DOMAIN m => d = k
    /\ \A e \in DOMAIN m : ~(Abs(e - k) < Abs(d - k))
(* rounding is monotone *)
MonotoneOK == DOMAIN m # {} => \A j, k \in Keys :
    j <= k => Nearest(DOMAIN m, j) <= Nearest(DOMAIN m, k)
Shrinks == DOMAIN m \subseteq init
(* only writes change the total; a deletion of one of several keeps it *)
Conserves == [][ LET o == hist'[Len(hist')] IN
    /\ o.op = "get" => m' = m
    /\ o.op = "copy" => m' = m
    /\ o.op \in {"del", "pop", "popitem"} /\ DOMAIN m' # {} => Sum(m') = Sum(m)
    /\ o.op = "add" /\ DOMAIN m # {} => Sum(m') = Sum(m) + o.v ]_vars
=============================================================================

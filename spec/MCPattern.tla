------------------------------ MODULE MCPattern ------------------------------
EXTENDS Emit
CONSTANTS MaxN, EmitN, Kind
VARIABLES bits
vars == <<bits>>

Test == IF Kind = "serial" THEN "serial" ELSE "approximate_entropy"
Calls(bs) == <<Call(Test, NoPar)>> \o
             [m \in 1..MinI(Len(bs) - 1, 5) |-> Call(Test, [blocksize |-> m])]
Init == bits = << >>
Next == /\ Len(bits) < MaxN
        /\ \E b \in {0, 1} : bits' = Append(bits, b)
        /\ IF Len(bits') <= EmitN /\ Len(bits') > 1 THEN EmitCalls(bits', Calls(bits')) ELSE TRUE
Spec == Init /\ [][Next]_vars

Sizes == 1..MinI(4, Len(bits))
CountOK == \A m \in Sizes : LET f == RingCounts(bits, m) IN
             \A v \in 0..(2^m - 1) : f[v] = RingCountDecl(bits, m, v)
(* a pattern is continued by either bit, and preceded by either bit *)
MarginalOK == \A m \in Sizes : m > 1 =>
    LET f == RingCounts(bits, m)
        g == RingCounts(bits, m - 1)
    IN \A v \in 0..(2^(m - 1) - 1) : /\ g[v] = f[2 * v] + f[2 * v + 1]
                                     /\ g[v] = f[v] + f[v + 2^(m - 1)]
(* rotating the sequence changes no count *)
Rotated == Append(SubSeq(bits, 2, Len(bits)), bits[1])
RotateOK == \A m \in Sizes : RingCounts(bits, m) = RingCounts(Rotated, m)
PairsOK == \A m \in Sizes :
    LET prs == Pairs(CountsOf(RingCounts(bits, m)))
    IN SumSeq([i \in 1..Len(prs) |-> prs[i][1] * prs[i][2]]) = Len(bits)
SparseOK == \A m \in Sizes :
    Range(Pairs(CountsOf(RingCounts(bits, m)))) = Range(WindowPairs(bits, m))
=============================================================================

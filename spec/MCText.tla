------------------------------- MODULE MCText -------------------------------
(* The rounding of printed numbers, of all rationals a / Den within bounds: the    *)
(* nearest multiples and only these are accepted; differences too; and the least  *)
(* sub-result is the first of the least.                                          *)
EXTENDS Text
CONSTANTS Den, Bound, MaxSubs
VARIABLES a, n, ranks
vars == <<a, n, ranks>>
Rnks == UNION {[1..k -> 0..2] : k \in 1..MaxSubs}
Init == \/ a \in -Bound..Bound /\ n \in -3..3 /\ ranks = <<0>>
        \/ a = 0 /\ n = 0 /\ ranks \in Rnks
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
(* a / Den as a number *)
Class(r) == CASE r = 0 -> "zero" [] 2 * r < Den -> "lt" [] 2 * r = Den -> "half" [] OTHER -> "gt"
Num1(x) == [f1 |-> (10 * x) \div Den, c1 |-> Class((10 * x) % Den),
            f3 |-> (1000 * x) \div Den, c3 |-> Class((1000 * x) % Den)]
Nearest(k, x, m) == 2 * Abs(k * Den - m * x) <= Den
RoundingOK == \A d \in -1..2 :
    LET k1 == (10 * a) \div Den + d
        k3 == (1000 * a) \div Den + d
    IN /\ NumOK([k1 |-> k1, k3 |-> NoNum], Num1(a), 1) <=> Nearest(k1, a, 10)
       /\ NumOK([k1 |-> NoNum, k3 |-> k3], Num1(a), 3) <=> Nearest(k3, a, 1000)
DiffOK == IntMinus(n, Num1(a)) = Num1(n * Den - a)
IntOK == n = OfInt(n).f1 \div 10 /\ OfInt(n) = Num1(n * Den)
FirstOK == LET m == MinAt(ranks) IN
    /\ \A i \in 1..Len(ranks) : ranks[m] <= ranks[i] /\ (ranks[i] = ranks[m] => m <= i)
(* the classes of every table are as many as its tallies *)
TableOK == \A k \in 2..7 : Len(Ranged(Seqn(3, 2 + k))) = k /\ Len(OpenEnded(k)) = k + 1
=============================================================================

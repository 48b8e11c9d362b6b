------------------------------- MODULE MCWalk -------------------------------
EXTENDS Emit
CONSTANTS MaxN, EmitN, Kind
VARIABLES bits, w
vars == <<bits, w>>

Calls(bs) ==
    IF Kind = "cusum"
    THEN <<Call("cusum", NoPar), Call("cusum", [reverse |-> 1]), Call("cusum", [reverse |-> 0])>>
    ELSE <<Call("random_excursions", NoPar), Call("random_excursions_variant", NoPar)>>
Init == bits = << >> /\ w = WalkInit
Next == /\ Len(bits) < MaxN
        /\ \E b \in {0, 1} : bits' = Append(bits, b) /\ w' = TLCEval(WalkStep(w, b))
        /\ IF Len(bits') <= EmitN THEN EmitCalls(bits', Calls(bits')) ELSE TRUE
Spec == Init /\ [][Next]_vars

n == Len(bits)
FarOK == w.far = Max({0} \cup {Abs(PosAt(bits, i)) : i \in 1..n})
PosOK == w.S = PosAt(bits, n) /\ w.zeros = Cardinality(ZeroTimes(bits))
VisitsOK == \A x \in -9..9 : w.visits[x] = VisitsIn(bits, x, 1, n)
(* the reversed walk's excursion is that of the differences to the end *)
ReverseOK == Walk(Reverse(bits)).far = Max({Abs(PosAt(bits, n) - PosAt(bits, i)) : i \in 0..n})
(* the cycles: between the times of zero, and after the last one *)
Cuts == SetToSortSeq(ZeroTimes(bits) \cup {0}, <)
CycleVisits(x, c) ==
    VisitsIn(bits, x, Cuts[c] + 1, IF c = Len(Cuts) THEN n ELSE Cuts[c + 1] - 1)
CyclesOK == /\ NCycles(w) = Len(Cuts)
            /\ \A x \in -4..4 : x # 0 =>
                 \A k \in 0..5 : Excursion(w)[x][k + 1] =
                   Cardinality({c \in 1..Len(Cuts) : MinI(CycleVisits(x, c), 5) = k})
BinsSum == \A x \in -4..4 : SumSeq(Excursion(w)[x]) = NCycles(w)
(* a cycle stays on one side of 0; within it, a visit of x + 1 has one of x *)
OneSided == \A x \in 1..3 : w.cyc[x + 1] > 0 => w.cyc[x] > 0 /\ w.cyc[-x] = 0
ASSUME \A x \in 1..4 : \* the probabilities of 0, .., 5 visits sum to 1 (denominator (2x)^5)
    LET y == 2 * x IN
    (y - 1) * y^4 + y^3 + (y - 1) * y^2 + (y - 1)^2 * y + (y - 1)^3 + (y - 1)^4 = y^5
=============================================================================

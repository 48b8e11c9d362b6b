-------------------------------- MODULE Walk --------------------------------
(* SP800-22 2.13, 2.14 and 2.15: Cumulative Sums, Random Excursions, and the  *)
(* Random Excursions Variant. One walk: +1 for heads, -1 for tails.           *)
EXTENDS Num

States == <<-4, -3, -2, -1, 1, 2, 3, 4>>
VStates == <<-9, -8, -7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9>>

(* S: position; far: furthest from 0; zeros: returns to 0; visits: of the     *)
(* variant's states; cyc: visits in the present cycle; bins[x][k + 1]: cycles *)
(* with k visits to x (5: or more), without the present one                   *)
NoVisits == TLCEval([x \in -4..4 |-> 0])
WalkInit == [S |-> 0, far |-> 0, zeros |-> 0,
             visits |-> TLCEval([x \in -9..9 |-> 0]),
             cyc |-> NoVisits,
             bins |-> TLCEval([x \in -4..4 |-> Zeros(6)])]
CloseCycle(s) ==
    TLCEval([x \in -4..4 |-> [s.bins[x] EXCEPT ![MinI(s.cyc[x], 5) + 1] = @ + 1]])
WalkStep(s, b) ==
    LET S == s.S + 2 * b - 1
        vis == IF S \in -9..9 THEN [s.visits EXCEPT ![S] = @ + 1] ELSE s.visits
    IN IF S = 0
       THEN [S |-> 0, far |-> s.far, zeros |-> s.zeros + 1, visits |-> vis,
             cyc |-> NoVisits, bins |-> CloseCycle(s)]
       ELSE [S |-> S, far |-> MaxI(s.far, Abs(S)), zeros |-> s.zeros, visits |-> vis,
             cyc |-> IF S \in -4..4 THEN [s.cyc EXCEPT ![S] = @ + 1] ELSE s.cyc,
             bins |-> s.bins]
Walk(bits) == FoldLeft(WalkStep, WalkInit, bits)

(* declarative *)
PosAt(bits, i) == SumSeq([j \in 1..i |-> 2 * bits[j] - 1])
ZeroTimes(bits) == {i \in 1..Len(bits) : PosAt(bits, i) = 0}
VisitsIn(bits, x, from, to) == Cardinality({i \in from..to : PosAt(bits, i) = x})

-----------------------------------------------------------------------------
(* Cumulative sums. z: the furthest position.                                  *)
(* p = 1 - sum_{k = (-n/z + 1)/4}^{(n/z - 1)/4} Phi((4k + 1) z / sqrt n) -      *)
(*                                              Phi((4k - 1) z / sqrt n)        *)
(*       + sum_{k = (-n/z - 3)/4}^{(n/z - 1)/4} Phi((4k + 3) z / sqrt n) -      *)
(*                                              Phi((4k + 1) z / sqrt n)        *)
(* floor((-n/z + 1)/4) = floor((z - n) / 4z)                                   *)
CusumRange1(n, z) == <<(z - n) \div (4 * z), (n - z) \div (4 * z)>>
CusumRange2(n, z) == <<(-n - 3 * z) \div (4 * z), (n - z) \div (4 * z)>>
CusumFin(n, z, reverse) ==
    LET r1 == CusumRange1(n, z)
        r2 == CusumRange2(n, z)
    IN [obs |-> [n |-> n, max_cusum |-> z, reverse |-> reverse],
        stat |-> TI(z),
        p |-> TClamp01(TAdd(<<TI(1),
                              TNeg(<<"cusumsum", r1[1], r1[2], 1, -1, z, n>>),
                              <<"cusumsum", r2[1], r2[2], 3, 1, z, n>> >>)),
        recs |-> << <<"n >= 100", B3(n >= 100)>> >>]
Cusum(bits, reverse) ==
    CusumFin(Len(bits), Walk(IF reverse = 1 THEN Reverse(bits) ELSE bits).far, reverse)

-----------------------------------------------------------------------------
(* Random excursions: every cycle, and the last one, is closed by the 0        *)
(* attached to the end of the walk.                                            *)
Excursion(s) == [x \in -4..4 |-> CloseCycle(s)[x]]
NCycles(s) == s.zeros + 1

(* pi_0 = 1 - a, pi_k = a^2 (1 - a)^(k - 1), pi_5 = a (1 - a)^4; a = 1/(2|x|)  *)
(* as integers over (2|x|)^5: with y = 2|x|,                                   *)
VisitProbs(x) ==
    LET y == 2 * Abs(x)
    IN <<TQ(y - 1, y), TQ(1, y^2), TQ(y - 1, y^3), TQ((y - 1)^2, y^4), TQ((y - 1)^3, y^5),
         TQ((y - 1)^4, y^5)>>

Excursions(bits) ==
    LET s == Walk(bits)
        J == NCycles(s)
        bins == Excursion(s)
        chi(x) == ChiStat(bins[x], [k \in 1..6 |-> TMul(TI(J), VisitProbs(x)[k])])
    IN [obs |-> [n |-> Len(bits)],
        sub |-> [i \in 1..8 |-> <<States[i], chi(States[i]), ChiP(5)>>],
        recs |-> << <<"n >= 1000000", B3(Len(bits) >= 1000000)>> >>]

(* p = erfc(|xi - J| / sqrt(2 J (4|x| - 2))) *)
Variant(bits) ==
    LET s == Walk(bits)
        J == NCycles(s)
    IN [obs |-> [n |-> Len(bits)],
        sub |-> [i \in 1..18 |->
                   LET x == VStates[i]
                       xi == s.visits[x]
                   IN <<x, TI(xi),
                        TErfc(TDiv(TI(Abs(xi - J)),
                                   TSqrt(TMul(TI(2 * J), TI(4 * Abs(x) - 2)))))>>],
        recs |-> << <<"n >= 1000000", B3(Len(bits) >= 1000000)>> >>]
=============================================================================

-------------------------------- MODULE Lfsr --------------------------------
(* SP800-22 2.10: Linear Complexity, by the Berlekamp-Massey algorithm.       *)
(* A connection polynomial over GF(2) is the set of its exponents.            *)
EXTENDS Num

(* C, B: connection polynomials, L: length of the register, m: steps since    *)
(* L last changed, N: bits consumed, bits: all of them                        *)
BMInit == [C |-> {0}, B |-> {0}, L |-> 0, m |-> 1, N |-> 0]
BMStep(bits, s) ==
    LET odd == Cardinality({i \in s.C : i <= s.N /\ bits[s.N + 1 - i] = 1}) % 2 = 1
        C2 == Xor(s.C, {b + s.m : b \in s.B})
    IN IF ~odd THEN [s EXCEPT !.m = @ + 1, !.N = @ + 1]
       ELSE IF 2 * s.L <= s.N
            THEN [C |-> C2, B |-> s.C, L |-> s.N + 1 - s.L, m |-> 1, N |-> s.N + 1]
            ELSE [s EXCEPT !.C = C2, !.m = @ + 1, !.N = @ + 1]
LinearComplexity(bits) == FoldLeft(LAMBDA s, b : BMStep(bits, s), BMInit, bits).L

(* declarative: the least L such that some register of length L produces bits *)
Generates(bits, L, taps) ==
    \A i \in (L + 1)..Len(bits) :
        bits[i] = Cardinality({t \in taps : bits[i - t] = 1}) % 2
LinearComplexityDecl(bits) ==
    CHOOSE L \in 0..Len(bits) :
        /\ \E taps \in SUBSET (1..L) : Generates(bits, L, taps)
        /\ \A k \in 0..(L - 1) : ~\E taps \in SUBSET (1..k) : Generates(bits, k, taps)

LcBlockDefault(n) ==
    IF n \div 1000 >= 200 THEN 1000 ELSE IF n \div 2500 >= 200 THEN 2500
    ELSE IF n \div 500 >= 200 THEN 500 ELSE IF n \div 5000 >= 200 THEN 5000
    ELSE MaxI(ISqrt(n), 2)

(* mu = M/2 + (9 + (-1)^(M+1)) / 36 - (M/3 + 2/9) / 2^M                        *)
LcMean(M) == TSub(TAdd(<<TQ(M, 2), TQ(IF M % 2 = 0 THEN 8 ELSE 10, 36)>>),
                  TDiv(TQ(3 * M + 2, 9), TPow2(M)))
(* T = (-1)^M (L - mu) + 2/9 is k + e or k - e, e = (3M + 2) / (9 * 2^M) < 1/2, *)
(* where k = L - M/2 for even M, and (M + 1)/2 - L for odd M; the nearest of   *)
(* the classes -3 .. 3 is that of k (checked by MCLfsr against mu).            *)
LcClass(M, L) == Clamp(IF M % 2 = 0 THEN L - M \div 2 ELSE (M + 1) \div 2 - L, -3, 3)
LcProbs == <<"0.010417", "0.03125", "0.125", "0.5", "0.25", "0.0625", "0.020833">>

LcRecs(n, M) == << <<"n >= 1000000", B3(n >= 1000000)>>,
                   <<"500 <= blocksize <= 5000", B3(M \in 500..5000)>>,
                   <<"nblocks >= 200", B3(n \div M >= 200)>> >>

(* complexities: of each block of M bits *)
Lc(complexities, n, M) ==
    LET N == n \div M
        tally == Tally([j \in 1..N |-> LcClass(M, complexities[j]) + 3], 6)
        stat == ChiStat(tally, Scaled(LcProbs, N))
    IN [obs |-> [blocksize |-> M, variance_bins |-> tally],
        stat |-> stat, p |-> ChiP(6),
        reals |-> [mean_expect |-> LcMean(M)],
        recs |-> LcRecs(n, M)]
=============================================================================

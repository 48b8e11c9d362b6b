------------------------------ MODULE Template ------------------------------
(* SP800-22 2.7 and 2.8: Non-overlapping and Overlapping Template Matching.  *)
EXTENDS Num

(* The values of all windows of m bits *)
Windows(bits, m) ==
    TLCEval([i \in 1..(Len(bits) - m + 1) |-> Value(SubSeq(bits, i, i + m - 1))])

-----------------------------------------------------------------------------
(* Non-overlapping: each template scans the block on its own. A match moves  *)
(* the scan past the match. next[t] is where the scan of t resumes.          *)
(* All templates are scanned at once, over the values of the windows.        *)
ScanInit(m) == [pos |-> 1, next |-> TLCEval([t \in 0..(2^m - 1) |-> 1]),
                count |-> TLCEval([t \in 0..(2^m - 1) |-> 0])]
ScanStep(m, s, w) ==
    IF s.pos >= s.next[w]
    THEN [pos |-> s.pos + 1, next |-> [s.next EXCEPT ![w] = s.pos + m],
          count |-> [s.count EXCEPT ![w] = @ + 1]]
    ELSE [s EXCEPT !.pos = @ + 1]
Matches(block, m) ==
    FoldLeft(LAMBDA s, w : ScanStep(m, s, w), ScanInit(m), Windows(block, m)).count

(* declarative: the scan finds the greatest number of disjoint occurrences *)
Occurrences(block, m, t) == {i \in 1..(Len(block) - m + 1) : Windows(block, m)[i] = t}
Disjoint(S, m) == \A i, j \in S : i = j \/ Abs(i - j) >= m
MaxDisjoint(block, m, t) ==
    Max({Cardinality(S) : S \in {R \in SUBSET Occurrences(block, m, t) : Disjoint(R, m)}})

PercentCeilsT(n) == IF n % 100 = 0 THEN {n \div 100, n \div 100 + 1} ELSE {CeilDiv(n, 100)}
NonOverBlockDefaults(n) ==
    { LET b == MinI(MaxI(c, 6), n) IN b - (b % 2) : c \in PercentCeilsT(n) }
NonOverTemplateDefault(M) == MaxI(MinI(M \div 3, 9), 2)

NonOverRecs(n, m, M) ==
    << <<"n >= 100", B3(n >= 100)>>,
       <<"template_size = 9 or 10", B3(m \in {9, 10})>>,
       <<"blocksize > 0.01 * n", B3(100 * M > n)>>,
       <<"nblocks <= 100", B3(n \div M <= 100)>>,
       <<"nblocks = floor(n / blocksize)", "T">> >>

(* W_j matches in block j, mu = (M - m + 1) / 2^m,                            *)
(* sigma^2 = M (1 / 2^m - (2m - 1) / 2^2m), X2 = sum (W_j - mu)^2 / sigma^2   *)
(* = (sum W^2 - 2 mu sum W + N mu^2) / sigma^2.                               *)
NonOver(bits, m, M) ==
    LET n == Len(bits)
        N == n \div M
        blk == Blocks(bits, M)
        W == TLCEval([j \in 1..N |-> Matches(blk[j], m)])
        mu == TDiv(TI(M - m + 1), TPow2(m))
        var == TMul(TI(M), TSub(TDiv(TI(1), TPow2(m)), TDiv(TI(2 * m - 1), TPow2(2 * m))))
        chi(t) == LET ws == TLCEval([j \in 1..N |-> W[j][t]])
                      s1 == SumSeq(ws)
                      s2 == SumSeq([j \in 1..N |-> ws[j] * ws[j]])
                  IN TDiv(TAdd(<<TI(s2), TNeg(TMul(TI(2 * s1), mu)), TMul(TI(N), TSq(mu))>>),
                          var)
    IN [obs |-> [template_size |-> m, blocksize |-> M, nblocks |-> N,
                 block_matches |-> [t \in 1..(2^m) |-> [j \in 1..N |-> W[j][t - 1]]]],
        reals |-> [matches_expect |-> mu, variance |-> var],
        sub |-> [t \in 1..(2^m) |-> <<t - 1, chi(t - 1), ChiP(N)>>],
        recs |-> NonOverRecs(n, m, M)]

-----------------------------------------------------------------------------
(* Overlapping: how many windows of a block consist of heads only           *)
OverInit == [run |-> 0, matches |-> 0]
OverStep(m, s, b) == LET r == IF b = 1 THEN s.run + 1 ELSE 0
                     IN [run |-> r, matches |-> IF r >= m THEN s.matches + 1 ELSE s.matches]
AllHeads(block, m) == FoldLeft(LAMBDA s, b : OverStep(m, s, b), OverInit, block).matches
AllHeadsDecl(block, m) ==
    Cardinality({i \in 0..(Len(block) - m) : \A k \in 1..m : block[i + k] = 1})

OverBlockDefault(n) == MaxI(ISqrt(n), 2)
OverTemplateDefault(M) == MinI(MaxI(ISqrt(M), 2), 12)

(* eta = lambda / 2 = (M - m + 1) / 2^(m + 1)                                *)
(* pi_0 = e^-eta, pi_u = eta e^(-2 eta) / 2^u 1F1(u + 1; 2; eta)             *)
OverProbs(m, M, K) ==
    LET eta == TDiv(TI(M - m + 1), TPow2(m + 1))
        p(u) == IF u = 0 THEN TExp(TNeg(eta))
                ELSE TMul(TDiv(TMul(eta, TExp(TNeg(TMul(TI(2), eta)))), TPow2(u)),
                          T1F1(TI(u + 1), TI(2), eta))
        first == [u \in 1..K |-> p(u - 1)]
    IN Append(first, TSub(TI(1), TAdd(first)))

(* lambda = 2 and df = 2 lambda as exact comparisons of integers:             *)
(* lambda = (M - m + 1) / 2^m                                                 *)
OverRecs(n, m, M, K) ==
    LET N == n \div M
        P == OverProbs(m, M, K)
    IN << <<"n >= 288", B3(n >= 288)>>,
          <<"n >= nblocks * blocksize", "T">>,
          <<"min(expected_tallies) > df", "term",
            <<"mingt", [u \in 1..(K + 1) |-> TMul(TI(N), P[u])], TI(K)>> >>,
          <<"lambda ~ 2", B3(m <= 29 /\ M - m + 1 = 2 * 2^m)>>,
          <<"len(template) ~ log2(nblocks)", B3(m <= 29 /\ N = 2^m)>>,
          <<"df ~ 2 * lambda", B3(m <= 25 /\ 2 * (M - m + 1) = K * 2^m)>> >>

Over(bits, m, M, K) ==
    LET n == Len(bits)
        N == n \div M
        blk == Blocks(bits, M)
        tally == Tally([j \in 1..N |-> MinI(AllHeads(blk[j], m), K)], K)
        P == OverProbs(m, M, K)
        exps == [u \in 1..(K + 1) |-> TMul(TI(N), P[u])]
        stat == ChiStat(tally, exps)
    IN [obs |-> [template_size |-> m, blocksize |-> M, nblocks |-> N, matches_ceil |-> K,
                 tallies |-> tally],
        stat |-> stat, p |-> ChiP(K),
        reals |-> [lambda_ |-> TDiv(TI(M - m + 1), TPow2(m))],
        recs |-> OverRecs(n, m, M, K)]
=============================================================================

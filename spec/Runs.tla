-------------------------------- MODULE Runs --------------------------------
(* SP800-22 2.3 and 2.4: Runs, Longest Run of Ones in a Block.              *)
EXTENDS Num

RunsInit == [n |-> 0, heads |-> 0, runs |-> 0, last |-> -1]
RunsStep(s, b) == [n |-> s.n + 1, heads |-> s.heads + b,
                   runs |-> IF b = s.last THEN s.runs ELSE s.runs + 1, last |-> b]

(* |V - 2 n pi (1 - pi)| / (2 sqrt(2n) pi (1 - pi)), pi = h / n, multiplied  *)
(* by n / n: |V n - 2 h t| / (2 sqrt(2n) h t / n)                           *)
RunsFin(s) ==
    LET h == s.heads
        t == s.n - s.heads
        ht == TMul(TI(h), TI(t))
        num == TAbs(TSub(TMul(TI(s.runs), TI(s.n)), TMul(TI(2), ht)))
        den == TDiv(TMul(TMul(TI(2), TSqrt(TMul(TI(2), TI(s.n)))), ht), TI(s.n))
    IN [obs |-> [n |-> s.n, statistic |-> s.runs, nheads |-> h, ntails |-> t],
        stat |-> TI(s.runs),
        p |-> TErfc(TDiv(num, den)),
        reals |-> [prop_heads |-> TQ(h, s.n), prop_tails |-> TQ(t, s.n)],
        recs |-> << <<"n >= 100", B3(s.n >= 100)>> >>]

RunsTest(bits) == RunsFin(FoldLeft(RunsStep, RunsInit, bits))

(* declarative: one more than the number of changes *)
NRuns(bits) == IF bits = << >> THEN 0
               ELSE 1 + Cardinality({i \in 1..(Len(bits) - 1) : bits[i] # bits[i + 1]})

-----------------------------------------------------------------------------
(* Longest run of heads *)
LongInit == [cur |-> 0, best |-> 0]
LongStep(s, b) == LET c == IF b = 1 THEN s.cur + 1 ELSE 0
                  IN [cur |-> c, best |-> MaxI(s.best, c)]
Longest(bits) == FoldLeft(LongStep, LongInit, bits).best

(* declarative *)
LongestDecl(bits) ==
    Max({0} \cup {len \in 1..Len(bits) :
                    \E i \in 0..(Len(bits) - len) : \A k \in 1..len : bits[i + k] = 1})

(* Table 2.4.2 and 2.4.4: n -> M, N, classes lo .. hi, class probabilities  *)
LongParams(n) ==
    IF n < 6272 THEN
        [M |-> 8, N |-> 16, lo |-> 1, hi |-> 4,
         pi |-> <<"0.2148", "0.3672", "0.2305", "0.1875">>]
    ELSE IF n < 750000 THEN
        [M |-> 128, N |-> 49, lo |-> 4, hi |-> 9,
         pi |-> <<"0.1174", "0.2430", "0.2493", "0.1752", "0.1027", "0.1124">>]
    ELSE
        [M |-> 10000, N |-> 75, lo |-> 10, hi |-> 16,
         pi |-> <<"0.0882", "0.2092", "0.2483", "0.1933", "0.1208", "0.0675", "0.0727">>]

(* only the first N blocks of M bits are examined *)
LongestRuns(bits) ==
    LET q == LongParams(Len(bits))
        longest == TLCEval([j \in 1..q.N |->
                             Longest(SubSeq(bits, (j - 1) * q.M + 1, j * q.M))])
        classes == [j \in 1..q.N |-> Clamp(longest[j], q.lo, q.hi) - q.lo]
        tally == Tally(classes, q.hi - q.lo)
        exps == Scaled(q.pi, q.N)
        stat == ChiStat(tally, exps)
    IN [obs |-> [blocksize |-> q.M, nblocks |-> q.N, maxlen_bins |-> tally],
        stat |-> stat, p |-> ChiP(q.hi - q.lo),
        recs |-> << <<"n >= 128", B3(Len(bits) >= 128)>> >>]
=============================================================================

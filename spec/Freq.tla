-------------------------------- MODULE Freq --------------------------------
(* SP800-22 2.1 and 2.2: Frequency (Monobit), Frequency within Block.       *)
EXTENDS Num

-----------------------------------------------------------------------------
(* Monobit: counts the heads *)
MonobitInit == [n |-> 0, heads |-> 0]
MonobitStep(s, b) == [n |-> s.n + 1, heads |-> s.heads + b]
MonobitFin(s) ==
    LET d == Abs(2 * s.heads - s.n)
        stat == TDiv(TI(d), TSqrt(TI(s.n)))
    IN [obs |-> [n |-> s.n, diff |-> d, heads |-> s.heads, tails |-> s.n - s.heads],
        stat |-> stat,
        p |-> TErfc(TDiv(TStat, TSqrt(TI(2)))),
        recs |-> << <<"n >= 100", B3(s.n >= 100)>> >>]

Monobit(bits) == MonobitFin(FoldLeft(MonobitStep, MonobitInit, bits))

-----------------------------------------------------------------------------
(* Frequency within Block: a streaming automaton over blocks of size M.     *)
(* Bits of an unfinished last block are discarded.                          *)
BlockFreqInit == [fill |-> 0, cur |-> 0, counts |-> << >>]
BlockFreqStep(M, s, b) ==
    IF s.fill + 1 = M
    THEN [fill |-> 0, cur |-> 0, counts |-> Append(s.counts, s.cur + b)]
    ELSE [fill |-> s.fill + 1, cur |-> s.cur + b, counts |-> s.counts]

BlockCounts(bits, M) == [j \in 1..NBlocks(bits, M) |-> Ones(Blocks(bits, M)[j])]

(* The sizes the default may take. 0.01n is inexact when 100 divides n.     *)
PercentCeils(n) == IF n % 100 = 0 THEN {n \div 100, n \div 100 + 1} ELSE {CeilDiv(n, 100)}
BlockFreqDefaults(n) ==
    IF n < 100 THEN {8}
    ELSE { LET m == MaxI(c, 20) IN
           IF n \div m >= 100 /\ n > 5000 THEN n \div 50 ELSE m : c \in PercentCeils(n) }

BlockFreqRecs(n, M) ==
    << <<"n >= 100", B3(n >= 100)>>,
       <<"blocksize >= 20", B3(M >= 20)>>,
       <<"blocksize > 0.01 * n", B3(100 * M > n)>>,
       <<"nblocks < 100", B3(n \div M < 100)>> >>

(* X2 = 4 M sum (c/M - 1/2)^2 = sum (2c - M)^2 / M *)
BlockFreq(bits, M) ==
    LET n == Len(bits)
        N == n \div M
        blk == Blocks(bits, M)
        counts == TLCEval([j \in 1..N |-> Ones(blk[j])])
        stat == TDiv(TAdd([j \in 1..N |-> TSq(TI(2 * counts[j] - M))]), TI(M))
    IN [obs |-> [blocksize |-> M, nblocks |-> N, counts |-> counts],
        stat |-> stat, p |-> ChiP(N),
        recs |-> BlockFreqRecs(n, M)]
=============================================================================

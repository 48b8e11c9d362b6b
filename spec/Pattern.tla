------------------------------- MODULE Pattern -------------------------------
(* SP800-22 2.11 and 2.12: Serial, Approximate Entropy. Both count all        *)
(* overlapping patterns of m bits in the sequence, taken as a ring.           *)
EXTENDS Num

(* Counts are kept in two levels, as a function from the high bits to a       *)
(* function from the low bits, which makes a step cost 2^(m/2) and not 2^m.   *)
Lo(m) == 2^(m \div 2)
Hi(m) == 2^(m - m \div 2)
RingInit(m, bits) ==
    [w |-> Value(SubSeq(bits, 1, m - 1)),
     counts |-> TLCEval([h \in 0..(Hi(m) - 1) |-> TLCEval([l \in 0..(Lo(m) - 1) |-> 0])])]
RingStep(m, s, b) ==
    LET w == (2 * s.w + b) % 2^m
    IN [w |-> w, counts |-> [s.counts EXCEPT ![w \div Lo(m)][w % Lo(m)] = @ + 1]]
(* the ring is read from its m-th bit, and ends with its first m - 1 bits *)
RingCounts(bits, m) ==
    LET ring == SubSeq(bits, m, Len(bits)) \o SubSeq(bits, 1, m - 1)
        c == FoldLeft(LAMBDA s, b : RingStep(m, s, b), RingInit(m, bits), ring).counts
    IN TLCEval([v \in 0..(2^m - 1) |-> c[v \div Lo(m)][v % Lo(m)]])

(* declarative *)
RingAt(bits, i) == bits[((i - 1) % Len(bits)) + 1]
RingCountDecl(bits, m, v) ==
    Cardinality({i \in 1..Len(bits) : Value([k \in 1..m |-> RingAt(bits, i + k - 1)]) = v})

(* the pairs <<count, how many patterns have it>>, of the patterns which occur *)
CountsOf(f) == FoldLeft(LAMBDA g, v : IF f[v] = 0 THEN g
                                      ELSE IF f[v] \in DOMAIN g THEN [g EXCEPT ![f[v]] = @ + 1]
                                      ELSE (f[v] :> 1) @@ g,
                        << >>, [v \in 1..Cardinality(DOMAIN f) |-> v - 1])
Pairs(g) == SetToSeq({<<c, g[c]>> : c \in DOMAIN g})
(* the same by comparing the windows with each other, for patterns beyond numbering *)
WindowPairs(bits, m) ==
    LET n == Len(bits)
        ring == TLCEval(FoldLeft(LAMBDA s, i : s \o bits, bits, [i \in 1..((m - 1) \div n + 1) |-> i]))
        w == TLCEval([i \in 1..n |-> TLCEval(SubSeq(ring, i, i + m - 1))])
        cnt == TLCEval([i \in 1..n |-> Cardinality({j \in 1..n : w[j] = w[i]})])
    IN SetToSeq({<<cnt[i], Cardinality({j \in 1..n : cnt[j] = cnt[i]}) \div cnt[i]>> : i \in 1..n})
RingPairs(bits, m) == IF m <= 16 THEN Pairs(CountsOf(RingCounts(bits, m))) ELSE WindowPairs(bits, m)

-----------------------------------------------------------------------------
SerialDefault(n) == MaxI(ILog2(n) - 3, 2)
SerialRecs(n, m) == << <<"blocksize < floor(log2(n) - 2)", B3(m < ILog2(n) - 2)>> >>

(* psi2_m = 2^m / n sum of squared counts - n, and 0 for m <= 0 *)
Psi2(prs, m, n) ==
    IF m <= 0 THEN TI(0)
    ELSE TSub(TDiv(TMul(TPow2(m),
                        TAdd([i \in 1..Len(prs) |-> TMul(TI(prs[i][2]), TSq(TI(prs[i][1])))])),
                   TI(n)), TI(n))

Serial(bits, m) ==
    LET n == Len(bits)
        pr(k) == IF k <= 0 THEN << >> ELSE RingPairs(bits, k)
        a == Psi2(pr(m), m, n)
        b == Psi2(pr(m - 1), m - 1, n)
        c == Psi2(pr(m - 2), m - 2, n)
        d1 == TMax0(TSub(a, b))
        d2 == TMax0(TAdd(<<a, TNeg(TMul(TI(2), b)), c>>))
    IN [obs |-> [blocksize |-> m],
        reals |-> [psi2_0 |-> a, psi2_1 |-> b, psi2_2 |-> c],
        sub |-> << <<1, d1, TQG(TPow2(m - 2), TDiv(TStat, TI(2)))>>,
                   <<2, d2, TQG(TPow2(m - 3), TDiv(TStat, TI(2)))>> >>,
        recs |-> SerialRecs(n, m)]

-----------------------------------------------------------------------------
EntropyDefault(n) == MaxI(ILog2(n) - 6, 2)
EntropyRecs(n, m) == << <<"blocksize < floor(log2(n)) - 5", B3(m < ILog2(n) - 5)>> >>

(* phi_m = sum c/n ln(c/n) *)
Phi(prs, n) == TAdd([i \in 1..Len(prs) |->
                       TMul(TI(prs[i][2]), TMul(TQ(prs[i][1], n), TLn(TQ(prs[i][1], n))))])
Entropy(bits, m) ==
    LET n == Len(bits)
        f0 == Phi(RingPairs(bits, m), n)
        f1 == Phi(RingPairs(bits, m + 1), n)
        apen == TSub(f0, f1)
        stat == TMax0(TMul(TI(2), TMul(TI(n), TSub(TLn(TI(2)), apen))))
    IN [obs |-> [blocksize |-> m],
        stat |-> stat, p |-> TQG(TPow2(m - 1), TDiv(TStat, TI(2))),
        reals |-> [approx_entropy |-> apen, phi_0 |-> f0, phi_1 |-> f1],
        recs |-> EntropyRecs(n, m)]
=============================================================================

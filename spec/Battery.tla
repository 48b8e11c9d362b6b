------------------------------- MODULE Battery -------------------------------
(* The whole battery as one function of a call: which calls are accepted,     *)
(* the parameters they run with, and what they must report.                   *)
EXTENDS Freq, Runs, Rank, Dft, Template, Universal, Lfsr, Pattern, Walk

Tests == <<"monobit", "frequency_within_block", "runs", "longest_runs",
           "binary_matrix_rank", "spectral", "non_overlapping_template_matching",
           "overlapping_template_matching", "maurers_universal", "linear_complexity",
           "serial", "approximate_entropy", "cusum", "random_excursions",
           "random_excursions_variant">>
MinN(test) == CASE test = "frequency_within_block" -> 8
                [] test \in {"binary_matrix_rank", "maurers_universal"} -> 4
                [] OTHER -> 2

-----------------------------------------------------------------------------
(* Encodings of a sequence in a recorded call: plain bits, run lengths, or    *)
(* blocks of one size given as indices into a dictionary, with a plain tail.  *)
Expand(enc) ==
    CASE enc.k = "raw" -> enc.b
      [] enc.k = "rle" -> FlattenSeq([j \in 1..Len(enc.r) |->
                                        [i \in 1..enc.r[j][2] |-> enc.r[j][1]]])
      [] enc.k = "blk" -> FlattenSeq([j \in 1..Len(enc.i) |-> enc.d[enc.i[j]]]) \o enc.t
LenOf(enc) ==
    CASE enc.k = "raw" -> Len(enc.b)
      [] enc.k = "rle" -> SumSeq([j \in 1..Len(enc.r) |-> enc.r[j][2]])
      [] enc.k = "blk" -> Len(enc.i) * enc.s + Len(enc.t)
BitsIn(enc) ==
    CASE enc.k = "raw" -> ToSet(enc.b)
      [] enc.k = "rle" -> {enc.r[j][1] : j \in 1..Len(enc.r)}
      [] enc.k = "blk" -> UNION {ToSet(enc.d[j]) : j \in ToSet(enc.i)} \cup ToSet(enc.t)
(* F of each block of the given size *)
MapBlocks(enc, size, F(_)) ==
    IF enc.k = "blk" /\ enc.s = size
    THEN LET f == TLCEval([j \in 1..Len(enc.d) |-> F(enc.d[j])])
             tail == Blocks(enc.t, size)
         IN TLCEval([j \in 1..Len(enc.i) |-> f[enc.i[j]]]) \o [j \in 1..Len(tail) |-> F(tail[j])]
    ELSE LET blk == Blocks(Expand(enc), size) IN TLCEval([j \in 1..Len(blk) |-> F(blk[j])])

-----------------------------------------------------------------------------
(* Parameters: given ones are honoured, the others take their defaults. A     *)
(* parameter which is 0 or absent is not given. w: the parameters which were  *)
(* observed, to resolve the choice of an inexact default.                     *)
Given(par, f) == f \in DOMAIN par /\ par[f] # 0
Pick(S, w, f) == IF f \in DOMAIN w /\ w[f] \in S THEN w[f] ELSE Min(S)
Param(par, f, default) == IF Given(par, f) THEN par[f] ELSE default

Params(test, n, par, w) ==
    CASE test = "frequency_within_block" ->
           [blocksize |-> IF Given(par, "blocksize") THEN par.blocksize
                          ELSE Pick(BlockFreqDefaults(n), w, "blocksize")]
      [] test = "binary_matrix_rank" ->
           IF "nrows" \in DOMAIN par THEN [nrows |-> par.nrows, ncols |-> par.ncols]
           ELSE [nrows |-> MatrixDefaults(n)[1], ncols |-> MatrixDefaults(n)[2]]
      [] test = "non_overlapping_template_matching" ->
           LET M == IF Given(par, "blocksize") THEN par.blocksize
                    ELSE Pick(NonOverBlockDefaults(n), w, "blocksize")
           IN [blocksize |-> M,
               template_size |-> Param(par, "template_size", NonOverTemplateDefault(M))]
      [] test = "overlapping_template_matching" ->
           LET M == Param(par, "blocksize", OverBlockDefault(n))
           IN [blocksize |-> M,
               template_size |-> Param(par, "template_size", OverTemplateDefault(M)),
               matches_ceil |-> IF "matches_ceil" \in DOMAIN par THEN par.matches_ceil ELSE 5]
      [] test = "maurers_universal" ->
           LET L == Param(par, "blocksize", UniL(n))
           IN [blocksize |-> L, init_nblocks |-> Param(par, "init_nblocks", UniQ(n, L))]
      [] test = "linear_complexity" ->
           [blocksize |-> Param(par, "blocksize", LcBlockDefault(n))]
      [] test = "serial" -> [blocksize |-> Param(par, "blocksize", SerialDefault(n))]
      [] test = "approximate_entropy" ->
           [blocksize |-> Param(par, "blocksize", EntropyDefault(n))]
      [] test = "cusum" -> [reverse |-> IF "reverse" \in DOMAIN par THEN par.reverse ELSE 0]
      [] OTHER -> [none |-> 0]

-----------------------------------------------------------------------------
Truncated(bits) == LET x == DftTrunc(bits) IN Cardinality(ToSet(x)) < 2

Outcome(test, enc, par) ==
    LET n == LenOf(enc) IN
    CASE Cardinality(BitsIn(enc)) # 2 -> "nonbinary"
      [] n < MinN(test) -> "minimum"
      [] test = "longest_runs" /\ n < 128 -> "notimpl"
      [] test = "maurers_universal" /\ "blocksize" \in DOMAIN par /\ par.blocksize > 16 ->
           "notimpl"
      [] test = "spectral" /\ n % 2 = 1 /\ Truncated(Expand(enc)) -> "nonbinary"
      [] OTHER -> "ok"

Expect(test, enc, par, w) ==
    LET n == LenOf(enc)
        q == Params(test, n, par, w)
    IN CASE test = "monobit" -> Monobit(Expand(enc))
         [] test = "frequency_within_block" -> BlockFreq(Expand(enc), q.blocksize)
         [] test = "runs" -> RunsTest(Expand(enc))
         [] test = "longest_runs" -> LongestRuns(Expand(enc))
         [] test = "binary_matrix_rank" -> RankTest(Expand(enc), q.nrows, q.ncols)
         [] test = "spectral" -> DftTest(Expand(enc))
         [] test = "non_overlapping_template_matching" ->
              NonOver(Expand(enc), q.template_size, q.blocksize)
         [] test = "overlapping_template_matching" ->
              Over(Expand(enc), q.template_size, q.blocksize, q.matches_ceil)
         [] test = "maurers_universal" ->
              Universal(MapBlocks(enc, q.blocksize, Value), n, q.blocksize, q.init_nblocks)
         [] test = "linear_complexity" ->
              Lc(MapBlocks(enc, q.blocksize, LinearComplexity), n, q.blocksize)
         [] test = "serial" -> Serial(Expand(enc), q.blocksize)
         [] test = "approximate_entropy" -> Entropy(Expand(enc), q.blocksize)
         [] test = "cusum" -> Cusum(Expand(enc), q.reverse)
         [] test = "random_excursions" -> Excursions(Expand(enc))
         [] test = "random_excursions_variant" -> Variant(Expand(enc))
=============================================================================

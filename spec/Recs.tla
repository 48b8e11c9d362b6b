-------------------------------- MODULE Recs --------------------------------
(* The recommendations of each test, as a function of length and parameters.   *)
EXTENDS Battery

RecsOf(test, n, q) ==
    CASE test \in {"monobit", "runs", "cusum"} -> << <<"n >= 100", B3(n >= 100)>> >>
      [] test = "longest_runs" -> << <<"n >= 128", B3(n >= 128)>> >>
      [] test = "spectral" -> << <<"n >= 1000", B3(n >= 1000)>> >>
      [] test \in {"random_excursions", "random_excursions_variant"} ->
           << <<"n >= 1000000", B3(n >= 1000000)>> >>
      [] test = "frequency_within_block" -> BlockFreqRecs(n, q.blocksize)
      [] test = "binary_matrix_rank" -> RankRecs(n, q.nrows * q.ncols)
      [] test = "non_overlapping_template_matching" ->
           NonOverRecs(n, q.template_size, q.blocksize)
      [] test = "overlapping_template_matching" ->
           OverRecs(n, q.template_size, q.blocksize, q.matches_ceil)
      [] test = "maurers_universal" -> UniRecs(n, q.blocksize, q.init_nblocks)
      [] test = "linear_complexity" -> LcRecs(n, q.blocksize)
      [] test = "serial" -> SerialRecs(n, q.blocksize)
      [] test = "approximate_entropy" -> EntropyRecs(n, q.blocksize)
=============================================================================

------------------------------ MODULE MCParams ------------------------------
(* The defaults of every test for every length: state n runs through From .. To *)
(* (or their neighbourhoods, when Step > 1). Lengths at which some default or   *)
(* recommendation changes are written out.                                      *)
EXTENDS Recs, Json, CSV, IOUtils
CONSTANTS From, To
VARIABLES n
None == << >>
Def(test, k) == Params(test, k, None, None)
Truths(test, k) == [i \in DOMAIN RecsOf(test, k, Def(test, k)) |->
                      IF RecsOf(test, k, Def(test, k))[i][2] = "term" THEN "?"
                      ELSE RecsOf(test, k, Def(test, k))[i][2]]
Changed(test) == n > From /\ n > MinN(test) /\
    \/ Def(test, n) # Def(test, n - 1)
    \/ Truths(test, n) # Truths(test, n - 1)
Init == n = From
Next == /\ n < To
        /\ n' = n + 1
        /\ \A i \in DOMAIN Tests :
             IF n' > MinN(Tests[i]) /\ (Def(Tests[i], n') # Def(Tests[i], n)
                                        \/ Truths(Tests[i], n') # Truths(Tests[i], n))
             THEN CSVWrite("%1$s", <<ToJson([test |-> Tests[i], n |-> n'])>>, IOEnv.OUT)
             ELSE TRUE
Spec == Init /\ [][Next]_n

(* the defaults are usable for every accepted length *)
Usable(test) == n >= MinN(test) =>
    LET q == Def(test, n) IN
    CASE test = "frequency_within_block" ->
           \A M \in BlockFreqDefaults(n) : M >= 1 /\ n \div M >= 1
      [] test = "binary_matrix_rank" -> q.nrows * q.ncols \in 1..n
      [] test = "non_overlapping_template_matching" ->
           \A M \in NonOverBlockDefaults(n) :
             M \in 1..n /\ NonOverTemplateDefault(M) \in 1..M /\ M - NonOverTemplateDefault(M) >= 0
      [] test = "overlapping_template_matching" ->
           q.blocksize \in 1..n /\ q.template_size \in 1..q.blocksize
      [] test = "maurers_universal" ->
           q.blocksize \in 1..16 /\ q.init_nblocks >= 1 /\ n \div q.blocksize > q.init_nblocks
      [] test = "linear_complexity" -> q.blocksize \in 2..n
      [] test = "serial" -> q.blocksize \in 2..n
      [] test = "approximate_entropy" -> q.blocksize \in 2..n
      [] test = "longest_runs" ->
           n >= 128 => LongParams(n).M * LongParams(n).N <= n
      [] OTHER -> TRUE
UsableOK == \A i \in DOMAIN Tests : Usable(Tests[i])
(* a default blocksize meets the recommendations which long sequences allow *)
RecsOK == /\ n >= 100 => \A M \in BlockFreqDefaults(n) : M >= 20 \/ n < 100
          /\ n >= 100 => \A M \in NonOverBlockDefaults(n) : M % 2 = 0 /\ M >= 2
          /\ n >= 387840 => UniL(n) \in 6..16 /\ UniQ(n, UniL(n)) = 10 * 2^UniL(n)
=============================================================================

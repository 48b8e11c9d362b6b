------------------------------- MODULE Charts -------------------------------
(* What the charts of a result show, given the sequence and the parameters: the   *)
(* bars or points as triples <<x, group, y>>, and the reference distribution, which *)
(* is the one whose tail beyond the statistic is the p-value.                     *)
(*                                                                                *)
(* Everything which is drawn is a string here; y = "~" is no integer.             *)
(* A chart is [name, titles, rows, reals]: the exact triples, and those whose y is *)
(* a term. Triples with y = "0" may be left out of charts of counts (sparse).     *)
EXTENDS Battery, Text

S(n) == ToString(n)
Chart(name, titles, rows, reals, sparse) ==
    [name |-> name, titles |-> titles, rows |-> rows, reals |-> reals, sparse |-> sparse]

(* expected and observed numbers of blocks, by class *)
Compared(name, title, labels, acts, exps) ==
    Chart(name, title,
          {<<labels[i], "observed", S(acts[i])>> : i \in 1..Len(labels)},
          [i \in 1..Len(labels) |-> <<labels[i], "expected", exps[i]>>], FALSE)
(* the terms of the expected numbers which a chi-square statistic is about *)
Exps(x) == [i \in 1..Len(x.stat[2]) |-> x.stat[2][i][3]]

(* how often each value occurs *)
CountRows(s) == {<<S(c[1]), "", S(c[2])>> : c \in Histogram(s)}
Positions(bits) ==
    FoldLeft(LAMBDA w, b : Append(w, w[Len(w)] + 2 * b - 1), <<0>>, bits)
WalkChart(bits) ==
    LET w == TLCEval(Positions(bits))
    IN Chart("plot_random_walk", {}, {<<S(i - 1), "", S(w[i])>> : i \in 1..Len(w)}, << >>, FALSE)
PatternRows(bits, m) ==
    LET prs == Pairs(CountsOf(RingCounts(bits, m)))
    IN {<<S(prs[i][1]), S(m), S(prs[i][2])>> : i \in 1..Len(prs)}

(* o: the faces, as they are printed (heads, tails), as data (hx, tx), and their   *)
(* first characters (h1, t1)                                                      *)
ChartsOf(test, bits, par, q, x, o) ==
    CASE test = "monobit" ->
           <<Chart("plot_counts",
                   (IF x.obs.heads >= x.obs.tails THEN {"Counts of " \o o.heads \o " and " \o o.tails}
                    ELSE {})
                   \cup (IF x.obs.heads <= x.obs.tails THEN {"Counts of " \o o.tails \o " and " \o o.heads}
                         ELSE {}),
                   {<<o.hx, "", S(x.obs.heads)>>, <<o.tx, "", S(x.obs.tails)>>}, << >>, FALSE)>>
      [] test = "frequency_within_block" ->
           <<Chart("plot_count_nblocks", {"Occurences of " \o o.heads \o " counts"},
                   CountRows(x.obs.counts), << >>, TRUE)>>
      [] test = "longest_runs" ->
           LET k == LongParams(Len(bits)) IN
           <<Compared("plot_maxlen_bins", {"Longest runs of " \o o.heads \o " per block"},
                      Ranged(Seqn(k.lo, k.hi)), x.obs.maxlen_bins, Exps(x))>>
      [] test = "binary_matrix_rank" ->
           <<Compared("plot_rank_counts", {"Matrix rank per block"},
                      RankClasses(x.obs.fullrank), x.obs.rankcounts, Exps(x))>>
      [] test = "overlapping_template_matching" ->
           <<Compared("plot_template_matches",
                      {"Overlapping matches of " \o
                       FoldLeft(LAMBDA s, i : s \o Chars(o)[2], "", [i \in 1..q.template_size |-> i])
                       \o " per block"},
                      OpenEnded(q.matches_ceil), x.obs.tallies, Exps(x))>>
      [] test = "linear_complexity" ->
           <<Compared("plot_variance", {"Variance from shortest LSFR length of # per block"},
                      Strs(Seqn(-3, 3)), x.obs.variance_bins, Exps(x))>>
      [] test = "approximate_entropy" ->
           <<Chart("plot_permutation_counts", {"Permutation counts"},
                   PatternRows(bits, q.blocksize) \cup PatternRows(bits, q.blocksize + 1),
                   << >>, TRUE)>>
      [] test = "cusum" -> <<WalkChart(IF q.reverse = 1 THEN Reverse(bits) ELSE bits)>>
      [] test \in {"random_excursions", "random_excursions_variant"} -> <<WalkChart(bits)>>
      [] OTHER -> << >>

(* The spectral chart: the magnitudes of the components, and the threshold *)
Magnitudes(bits) ==
    LET m == Len(bits)
    IN IF m <= 40 THEN <<"mags", [k \in 1..(m \div 2) |-> Coefficients(bits, k - 1)]>>
       ELSE <<"magsdft", m>>

(* The reference distribution, from the term of the p-value: erfc(a) is the tail of *)
(* the half-normal distribution beyond sqrt(2) a; Q(k/2, s/2) that of the           *)
(* chi-square distribution of k degrees of freedom beyond s.                        *)
NoDist == [kind |-> "none", df |-> 0, at |-> TI(0), title |-> ""]
RefDist(p) ==
    CASE p[1] = "erfc" -> [kind |-> "halfnorm", df |-> 0, at |-> TMul(p[2], TSqrt(TI(2))),
                           title |-> "Half normal distribution"]
      [] p[1] = "gq" ->
           LET df == IF p[2][1] = "q" THEN (2 * p[2][2]) \div p[2][3] ELSE 2^(p[2][2] + 1)
           IN [kind |-> "chi2", df |-> df, at |-> TMul(TI(2), p[3]),
               title |-> "Chi-square distribution with " \o S(df) \o " degrees of freedom"]
      [] OTHER -> NoDist

(* 0: every unit of a recorded chart shows what it should; otherwise why not        *)
Keys(rows) == {<<rows[i][1], rows[i][2]>> : i \in 1..Len(rows)}
UnitBad(rows, c) ==
    LET shown == IF c.sparse THEN SelectSeq(rows, LAMBDA r : r[3] # "0") ELSE rows
        exact == {<<r[1], r[2]>> : r \in c.rows}
        real == {<<c.reals[i][1], c.reals[i][2]>> : i \in 1..Len(c.reals)}
    IN CASE Keys(shown) # exact \cup real -> "it does not show the classes which there are"
         [] Len(shown) # Cardinality(exact) + Cardinality(real) -> "it shows a class twice"
         [] \E i \in 1..Len(shown) :
              <<shown[i][1], shown[i][2]>> \in exact /\ shown[i] \notin c.rows ->
              "it shows another number"
         [] OTHER -> ""
ChartBad(got, c) ==
    CASE c.titles # {} /\ c.titles \cap ToSet(got.titles) = {} -> "it has another title"
      [] got.units = << >> -> "it is empty"
      [] OTHER ->
         LET bad == {UnitBad(got.units[i], c) : i \in 1..Len(got.units)} \ {""}
         IN IF bad = {} THEN "" ELSE CHOOSE b \in bad : TRUE
=============================================================================

-------------------------------- MODULE Text --------------------------------
(* The printed form of every test's result: which paragraphs it has, and which    *)
(* numbers of the result object they state, rounded to how many decimals.         *)
(*                                                                                *)
(* A number x of the object is given as [f1, c1, f3, c3]: the floor of x * 10^1   *)
(* and of x * 10^3, and how the rest compares with 1/2. A printed number is given *)
(* as [k1, k3]: how many 10^-1 and 10^-3 it is, NoNum where that is no integer.   *)
EXTENDS Print

NoNum == -2147483647
NumOK(k, x, d) == IF d = 1 THEN k.k1 # NoNum /\ RoundOK(k.k1, x.f1, x.c1)
                  ELSE k.k3 # NoNum /\ RoundOK(k.k3, x.f3, x.c3)
(* an integer as such a number, and the difference of an integer and a number *)
OfInt(n) == [f1 |-> 10 * n, c1 |-> "zero", f3 |-> 1000 * n, c3 |-> "zero"]
FlipC(c) == CASE c = "zero" -> "zero" [] c = "half" -> "half" [] c = "lt" -> "gt" [] OTHER -> "lt"
IntMinus(n, x) == [f1 |-> 10 * n - x.f1 - (IF x.c1 = "zero" THEN 0 ELSE 1), c1 |-> FlipC(x.c1),
                   f3 |-> 1000 * n - x.f3 - (IF x.c3 = "zero" THEN 0 ELSE 1), c3 |-> FlipC(x.c3)]

(* Cells: numbers, texts, templates (sequences of bits)                           *)
N(x, d) == [k |-> "n", x |-> x, d |-> d]
I(n) == N(OfInt(n), 3)
T(s) == IF s = "?" THEN [k |-> "any"] ELSE [k |-> "t", s |-> s]
B(bits, star) == [k |-> "b", bits |-> bits, star |-> star]

(* the characters of heads and tails: the first ones of their faces, if they differ *)
Chars(o) == IF o.h1 = o.t1 \/ o.h1 = "" \/ o.t1 = "" THEN <<"0", "1">> ELSE <<o.t1, o.h1>>
Shown(bits, o) == [i \in 1..Len(bits) |-> Chars(o)[bits[i] + 1]]

(* a printed cell is [s: its text, ch: its characters, n: its number] *)
CellOK(got, c, o) ==
    CASE c.k = "n" -> NumOK(got.n, c.x, c.d)
      [] c.k = "t" -> got.s = c.s
      [] c.k = "any" -> TRUE
      [] OTHER -> got.ch = Shown(c.bits, o) \o (IF c.star THEN <<"*">> ELSE <<>>)
RowsOK(got, rows, o) ==
    /\ Len(got) = Len(rows)
    /\ \A i \in 1..Len(rows) : /\ Len(got[i]) = Len(rows[i])
                               /\ \A j \in 1..Len(rows[i]) : CellOK(got[i][j], rows[i][j], o)

(* Paragraphs *)
List(title, rows) == [k |-> "list", title |-> T(title), rows |-> rows, cap |-> <<>>]
Inputs(rows) == List(IF Len(rows) > 1 THEN "test inputs" ELSE "test input", rows)
Result(name, s, p) == List("result", <<<<T(name), N(s, 1)>>, <<T("p-value"), N(p, 3)>>>>)
Table(title, head, rows, cap) ==
    [k |-> "table", title |-> title, cap |-> cap,
     rows |-> <<[i \in 1..Len(head) |-> T(head[i])]>> \o rows]
NoText == T("")
(* of the classes with these names: how often expected, and how often observed *)
ChiTable(title, name, classes, exps, acts, cap) ==
    Table(title, <<name, "expect", "actual", "diff">>,
          [i \in 1..Len(classes) |-> <<T(classes[i]), N(exps[i], 1), I(acts[i]),
                                       N(IntMinus(acts[i], exps[i]), 1)>>], cap)
ParaOK(got, p, o) ==
    /\ got.k = p.k
    /\ CellOK(got.title, p.title, o)
    /\ RowsOK(got.rows, p.rows, o)
    /\ IF p.cap = <<>> THEN got.cap.s = "" ELSE
       got.cap.s = p.cap[1] /\ NumOK(got.cap.n, p.cap[2], 1)

(* The sub-result of the least p-value, the first such; ps are given by their ranks *)
MinAt(ranks) == CHOOSE i \in 1..Len(ranks) :
    /\ \A j \in 1..Len(ranks) : ranks[i] <= ranks[j]
    /\ \A j \in 1..(i - 1) : ranks[j] > ranks[i]

(* the distinct values of a sequence of naturals, ascending, and how often they occur *)
CountTable(s) ==
    LET vs == SetToSortSeq({s[i] : i \in 1..Len(s)}, <)
    IN [i \in 1..Len(vs) |-> <<I(vs[i]), I(Cardinality({j \in 1..Len(s) : s[j] = vs[i]}))>>]

Multi(name, feature, o, extra) ==
    LET m == MinAt(o.ranks)
        feat(i, star) == B(o.subs[i].bits, star)
        label(i) == IF o.subs[i].label = "" THEN feat(i, i = m)
                    ELSE T(IF i = m THEN o.subs[i].label \o "*" ELSE o.subs[i].label)
    IN <<Table(T("sub-test results"), <<feature, name, "p">>,
               [i \in 1..Len(o.subs) |-> <<label(i), N(o.subs[i].stat, 3), N(o.subs[i].p, 3)>>],
               <<>>),
         [k |-> "star", title |-> IF o.subs[m].label = "" THEN feat(m, FALSE) ELSE T(o.subs[m].label),
          rows |-> <<>>, cap |-> <<"sub-test result for " \o feature>>],
         Result(extra, o.subs[m].stat, o.subs[m].p)>>

StarOK(got, p, o) == got.k = "star" /\ got.cap.s = p.cap[1] /\ CellOK(got.title, p.title, o)

Seqn(lo, hi) == [i \in 1..(hi - lo + 1) |-> lo + i - 1]
Strs(ns) == [i \in 1..Len(ns) |-> ToString(ns[i])]
(* classes of an ordered partition of the naturals *)
Ranged(ns) == [i \in 1..Len(ns) |-> CASE i = 1 -> "0-" \o ToString(ns[i])
                                      [] i = Len(ns) -> ToString(ns[i]) \o "+"
                                      [] OTHER -> ToString(ns[i])]
OpenEnded(hi) == [i \in 1..(hi + 1) |-> IF i = hi + 1 THEN ToString(hi) \o "+" ELSE ToString(i - 1)]
(* of matrices of one row or column, there is no rank below the runner-up *)
RankClasses(full) == <<IF full = 1 THEN "?" ELSE IF full = 2 THEN "0" ELSE "0-" \o ToString(full - 2),
                       ToString(full - 1), ToString(full)>>

(* all the paragraphs of the result o, after that of the failed recommendations *)
Page(o) ==
    LET f == o.f
        in(name, key) == <<T(name), I(f[key])>>
    IN
    CASE o.t = "monobit" ->
           <<Result("normalised diff", o.stat, o.p),
             Table(NoText, <<"value", "count">>,
                   LET hs == <<T(o.heads), I(f.heads)>>
                       ts == <<T(o.tails), I(f.tails)>>
                   IN IF f.heads > f.tails \/ (f.heads = f.tails /\ o.headsfirst = 1)
                      THEN <<hs, ts>> ELSE <<ts, hs>>, <<>>)>>
      [] o.t = "frequency_within_block" ->
           <<Result("chi-square", o.stat, o.p),
             Inputs(<<in("blocksize", "blocksize"), in("nblocks", "nblocks")>>)>>
      [] o.t = "runs" -> <<Result("no. of runs", o.stat, o.p)>>
      [] o.t = "longest_runs" ->
           <<Result("chi-square", o.stat, o.p),
             Inputs(<<in("blocksize", "blocksize"), in("nblocks", "nblocks")>>),
             ChiTable(T("longest run of " \o o.heads \o " per block"), "maxlen",
                      Ranged(f.keys), o.exps, f.acts, <<>>)>>
      [] o.t = "binary_matrix_rank" ->
           <<Result("chi-square", o.stat, o.p),
             Inputs(<<in("nrows", "nrows"), in("ncols", "ncols")>>),
             ChiTable(T("rank of matrix"), "ranks",
                      RankClasses(MinI(f.nrows, f.ncols)), o.exps, f.acts, <<>>)>>
      [] o.t = "spectral" ->
           <<Result("normalised diff", o.stat, o.p),
             List("npeaks below threshold",
                  <<<<T("actual"), N(o.more.nbelow, 3)>>,
                    <<T("expected"), N(o.more.nbelow_expect, 3)>>,
                    <<T("diff"), N(o.more.diff, 3)>>>>)>>
      [] o.t = "non_overlapping_template_matching" ->
           LET m == MinAt(o.ranks) IN
           <<Inputs(<<in("blocksize", "blocksize"), in("nblocks", "nblocks")>>)>>
           \o Multi("chi2", "template", o, "chi-square")
           \o <<Table(B(o.subs[m].bits, FALSE), <<"matches", "nblocks">>,
                      CountTable(o.subs[m].matches), <<"expected matches", o.more.matches_expect>>)>>
      [] o.t = "overlapping_template_matching" ->
           <<Result("chi-square", o.stat, o.p),
             Inputs(<<in("template size", "template_size"), in("blocksize", "blocksize"),
                      in("nblocks", "nblocks")>>),
             ChiTable(B(f.template, FALSE), "matches", OpenEnded(f.ceil), o.exps, f.acts, <<>>)>>
      [] o.t = "maurers_universal" ->
           <<Result("log2 distances", o.stat, o.p),
             Inputs(<<in("init nblocks", "init_nblocks"),
                      in("segment nblocks", "segment_nblocks")>>)>>
      [] o.t = "linear_complexity" ->
           <<Result("chi-square", o.stat, o.p),
             ChiTable(T("deviations of shortest LSFR per block"), "variance",
                      Strs(Seqn(-3, 3)), o.exps, f.acts,
                      <<"from expected mean", o.more.mean_expect>>)>>
      [] o.t = "serial" ->
           <<List("first result", <<<<T("delta psi2"), N(o.subs[1].stat, 1)>>,
                                    <<T("p-value"), N(o.subs[1].p, 3)>>>>),
             List("second result", <<<<T("delta2 psi2"), N(o.subs[2].stat, 1)>>,
                                     <<T("p-value"), N(o.subs[2].p, 3)>>>>),
             Inputs(<<in("blocksize", "blocksize")>>)>>
      [] o.t = "approximate_entropy" -> <<Result("chi-square", o.stat, o.p)>>
      [] o.t = "cusum" -> <<Result("max cusum", o.stat, o.p)>>
      [] o.t = "random_excursions" -> Multi("chi2", "state", o, "chi-square")
      [] o.t = "random_excursions_variant" -> Multi("xi", "state", o, "count")

(* 0: the text says what it should; otherwise which paragraph does not (-1: the     *)
(* failures, -2: the number of paragraphs, -3: the minimum of the object)         *)
TextBad(o, failed, paras) ==
    LET page == Page(o)
        bad == {i \in 1..Len(page) :
                  ~IF page[i].k = "star" THEN StarOK(paras[i], page[i], o)
                   ELSE ParaOK(paras[i], page[i], o)}
    IN CASE failed # o.fail -> -1
         [] Len(paras) # Len(page) -> -2
         [] o.ranks # <<>> /\ o.minat # MinAt(o.ranks) -> -3
         [] bad # {} -> Min(bad)
         [] OTHER -> 0
=============================================================================

------------------------------ MODULE MCCharts ------------------------------
(* All short sequences: what the charts show adds up, and agrees with the walk;    *)
(* the reference distribution is that of the p-value. Emits every call.           *)
EXTENDS Charts, Json, CSV, IOUtils
CONSTANTS MaxN, EmitN
VARIABLES bits
vars == <<bits>>
O == [heads |-> "1", tails |-> "0", hx |-> "1", tx |-> "0", h1 |-> "1", t1 |-> "0"]
Two == Ones(bits) \notin {0, Len(bits)}
Raw == [k |-> "raw", b |-> bits]
Par(test) == IF test = "cusum" THEN [reverse |-> 1]
             ELSE IF test = "approximate_entropy" THEN [blocksize |-> 1]
             ELSE IF test = "linear_complexity" THEN [blocksize |-> 2]
             ELSE IF test = "frequency_within_block" THEN [blocksize |-> 2]
             ELSE IF test = "binary_matrix_rank" THEN [nrows |-> 2, ncols |-> 2]
             ELSE IF test = "overlapping_template_matching" THEN [blocksize |-> 3, template_size |-> 2, matches_ceil |-> 2]
             ELSE << >>
Drawn == {"monobit", "frequency_within_block", "binary_matrix_rank", "overlapping_template_matching",
          "linear_complexity", "approximate_entropy", "cusum", "random_excursions"}
Exp(test) == Expect(test, Raw, Par(test), << >>)
Of(test) == ChartsOf(test, bits, Par(test), Params(test, Len(bits), Par(test), << >>), Exp(test), O)[1]
OkFor(test) == Two /\ Outcome(test, Raw, Par(test)) = "ok"
Init == bits = << >>
Next == /\ Len(bits) < MaxN
        /\ \E b \in {0, 1} : bits' = Append(bits, b)
        /\ IF Len(bits') <= EmitN /\ Len(bits') > 3
           THEN CSVWrite("%1$s", <<ToJson([b |-> bits', c |-> SetToSeq({[test |-> t, par |-> Par(t)] : t \in Drawn \cup {"spectral", "runs", "maurers_universal"}})])>>, IOEnv.OUT) ELSE TRUE
Spec == Init /\ [][Next]_vars

Num10 == [d \in {S(i) : i \in -40..40} |-> CHOOSE i \in -40..40 : S(i) = d]
SumOf(c, F(_)) == FoldSet(LAMBDA r, a : a + F(r), 0, c.rows)
Y(r) == Num10[r[3]]
XY(r) == Num10[r[1]] * Num10[r[3]]
Group(c, g) == [c EXCEPT !.rows = {r \in @ : r[2] = g}]
Obs(test) == SumOf(Group(Of(test), "observed"), Y)

SumsOK == /\ OkFor("monobit") => SumOf(Of("monobit"), Y) = Len(bits)
          /\ OkFor("frequency_within_block") =>
                LET c == Of("frequency_within_block")
                IN SumOf(c, Y) = Len(bits) \div 2 /\ SumOf(c, XY) = Ones(SubSeq(bits, 1, 2 * (Len(bits) \div 2)))
          /\ OkFor("binary_matrix_rank") => Obs("binary_matrix_rank") = Len(bits) \div 4
          /\ OkFor("overlapping_template_matching") => Obs("overlapping_template_matching") = Len(bits) \div 3
          /\ OkFor("linear_complexity") => Obs("linear_complexity") = Len(bits) \div 2
          /\ OkFor("approximate_entropy") =>
                \A m \in 1..2 : SumOf(Group(Of("approximate_entropy"), S(m)), XY) = Len(bits)
(* the walk goes up and down by one, and backwards it ends at the same place *)
At(c, i) == CHOOSE v \in -40..40 : <<S(i), "", S(v)>> \in c.rows
WalkOK == OkFor("cusum") =>
    LET w == Of("random_excursions")
        r == Of("cusum")
        n == Len(bits)
    IN /\ Cardinality(w.rows) = n + 1 /\ At(w, 0) = 0 /\ At(w, n) = At(r, n)
       /\ \A i \in 1..n : /\ Abs(At(w, i) - At(w, i - 1)) = 1
                          /\ At(w, i) = PosAt(bits, i)
                          /\ At(r, i) = At(w, n) - At(w, n - i)
(* a chart accepts what it shows, and nothing else *)
Rows(c) == SetToSeq(c.rows) \o [i \in 1..Len(c.reals) |-> <<c.reals[i][1], c.reals[i][2], "~">>]
Drop(rows) == Tail(rows)
Bump(rows) == [rows EXCEPT ![1] = <<@[1], @[2], "77">>]
SelfOK == \A t \in Drawn : OkFor(t) =>
    LET c == Of(t)
        rows == Rows(c)
        g(rs) == [titles |-> SetToSeq(c.titles), units |-> <<rs>>]
    IN /\ ChartBad(g(rows), c) = ""
       /\ ChartBad(g(Drop(rows)), c) # "" \/ (c.sparse /\ rows[1][3] = "0")
       /\ ChartBad(g(Bump(rows)), c) # ""
       /\ ChartBad(g(Append(rows, rows[1])), c) # ""
       /\ c.titles = {} \/ ChartBad([titles |-> <<"x">>, units |-> <<rows>>], c) # ""
DistOK == \A t \in Drawn \cup {"spectral", "runs"} : OkFor(t) =>
    LET x == Exp(t) IN
    "p" \in DOMAIN x /\ t # "cusum" =>
        LET d == RefDist(x.p) IN
        CASE t \in {"monobit", "spectral", "runs"} -> d.kind = "halfnorm"
          [] t = "frequency_within_block" -> d.kind = "chi2" /\ d.df = Len(bits) \div 2
          [] t = "approximate_entropy" -> d.kind = "chi2" /\ d.df = 2
          [] OTHER -> d.kind = "chi2" /\ d.df = Len(Of(t).reals) - 1
=============================================================================

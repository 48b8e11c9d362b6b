------------------------------- MODULE Print -------------------------------
(* What is printed: numbers, the summary, the sequence.                         *)
EXTENDS Num

(* A number which is printed with d decimals is observed as the integer k of     *)
(* 10^-d; the actual number x by f, the floor of x * 10^d, and c, which tells    *)
(* how x * 10^d - f compares with 1/2 ("zero", "lt", "half", "gt").              *)
RoundOK(k, f, c) == \/ c \in {"zero", "lt", "half"} /\ k = f
                    \/ c \in {"half", "gt"} /\ k = f + 1

(* p-values are also observed as the floor q of p * 10^9; exact at 0.01, since   *)
(* no double lies between 1/100 and the double nearest to it.                    *)
SigLevel9 == 10000000
Verdict(q) == IF q >= SigLevel9 THEN "PASS" ELSE "FAIL"

(* The summary of outcomes, each [t, ok, multi, f, c, q]: rows of the single     *)
(* results, and of the tests which could not run; and the names of the rest.     *)
InTable(o) == o.ok = 0 \/ o.multi = 0
TableOf(outs) == SelectSeq(outs, InTable)
RestOf(outs) == LET r == SelectSeq(outs, LAMBDA o : ~InTable(o)) IN [i \in 1..Len(r) |-> r[i].t]
(* a row is observed as [t, p, v], p being -1 for a dash *)
RowOK(r, o) == /\ r.t = o.t
               /\ IF o.ok = 0 THEN r.p = -1 /\ r.v = "N/A"
                  ELSE RoundOK(r.p, o.f, o.c) /\ r.v = Verdict(o.q)
SummaryOK(rows, rest, outs) ==
    LET tab == TableOf(outs) IN
    /\ Len(rows) = Len(tab)
    /\ \A i \in 1..Len(tab) : RowOK(rows[i], tab[i])
    /\ rest = RestOf(outs)

(* The printed sequence: rows of Inner(cols) values; of more than 12 rows, only  *)
(* the first and the last four, between which the rest is said to be omitted.    *)
MaxRows == 12
Ends == 4
Inner(cols) == MinI(cols, 80) - 8
NRows(n, w) == CeilDiv(n, w)
RowAt(s, w, i) == SubSeq(s, (i - 1) * w + 1, MinI(i * w, Len(s)))
RowsOf(s, w) ==
    LET k == NRows(Len(s), w) IN
    IF k <= MaxRows THEN [rows |-> [i \in 1..k |-> RowAt(s, w, i)], omit |-> 0, after |-> 0]
    ELSE [rows |-> [i \in 1..(2 * Ends) |-> RowAt(s, w, IF i <= Ends THEN i ELSE k - 2 * Ends + i)],
          omit |-> k - 2 * Ends, after |-> Ends]
(* shown rows are sequences of characters (numbers); bits those of the sequence: *)
(* one character each, those of heads and of tails being distinct                *)
Same(shown, rows) ==
    LET at == {<<i, j>> : i \in 1..Len(rows), j \in 1..80}
        cells == {x \in at : x[2] <= Len(rows[x[1]])}
        chars(b) == {shown[x[1]][x[2]] : x \in {y \in cells : rows[y[1]][y[2]] = b}}
    IN /\ Len(shown) = Len(rows)
       /\ \A i \in 1..Len(rows) : Len(shown[i]) = Len(rows[i])
       /\ Cardinality(chars(0)) <= 1 /\ Cardinality(chars(1)) <= 1
       /\ chars(0) \cap chars(1) = {}
PrintedOK(shown, omit, after, s, cols) ==
    LET r == RowsOf(s, Inner(cols)) IN
    /\ omit = r.omit /\ after = r.after
    /\ Same(shown, r.rows)
=============================================================================

------------------------------ MODULE Progress ------------------------------
(* The progress bars of the tests: what a caller who follows the progress sees.  *)
(* A log is a sequence of events [k, t, x, m] of the bar t:                      *)
(*   add    the bar exists, with total x                                         *)
(*   start  its test begins                                                      *)
(*   total  the test announces that it takes x steps                             *)
(*   adv    it goes x steps, m times in a row                                    *)
(*   yield  its test is over: the result, or the reason why there is none, is out *)
(*   fail   its test raised an error to the caller (a single test only)          *)
(* A bar never goes back, nor beyond its total, and is complete when its test is *)
(* over; the tests of a run take turns, in the order of their bars.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NoBar == [total |-> 0, done |-> 0, on |-> FALSE, over |-> FALSE]

AddOK(bars, e) == e.t = Len(bars) + 1
StartOK(bars, e) == /\ ~bars[e.t].on /\ ~bars[e.t].over
                    /\ \A u \in 1..(e.t - 1) : bars[u].over
TotalOK(bars, e) ==
    LET b == bars[e.t] IN
    /\ b.on /\ ~b.over /\ e.x >= 0
    /\ b.done = 0 \/ (b.done <= e.x /\ e.x <= b.total)
AdvOK(bars, e) == LET b == bars[e.t] IN b.on /\ ~b.over /\ e.x > 0 /\ b.done + e.x * e.m <= b.total
YieldOK(bars, e) == LET b == bars[e.t] IN b.on /\ ~b.over /\ b.done = b.total

Legal(bars, e) ==
    IF e.k = "add" THEN AddOK(bars, e)
    ELSE /\ e.t \in 1..Len(bars)
         /\ CASE e.k = "start" -> StartOK(bars, e)
              [] e.k = "total" -> TotalOK(bars, e)
              [] e.k = "adv" -> AdvOK(bars, e)
              [] e.k = "yield" -> YieldOK(bars, e)
              [] e.k = "fail" -> bars[e.t].on /\ ~bars[e.t].over
              [] OTHER -> FALSE
Apply(bars, e) ==
    TLCEval(CASE e.k = "add" -> Append(bars, [NoBar EXCEPT !.total = e.x])
              [] e.k = "start" -> [bars EXCEPT ![e.t].on = TRUE]
              [] e.k = "total" -> [bars EXCEPT ![e.t].total = e.x]
              [] e.k = "adv" -> [bars EXCEPT ![e.t].done = @ + e.x * e.m]
              [] OTHER -> [bars EXCEPT ![e.t].over = TRUE])

(* after which event of the log it is wrong: 0: none, Len(log) + 1: it is too short *)
LogBad(log) ==
    LET r == FoldLeft(LAMBDA a, i :
                 IF a.bad # 0 THEN a
                 ELSE IF Legal(a.bars, log[i]) THEN [a EXCEPT !.bars = Apply(a.bars, log[i])]
                 ELSE [a EXCEPT !.bad = i],
                 [bars |-> << >>, bad |-> 0], [i \in 1..Len(log) |-> i])
    IN IF r.bad # 0 THEN r.bad
       ELSE IF \A t \in 1..Len(r.bars) : r.bars[t].over THEN 0 ELSE Len(log) + 1
=============================================================================

----------------------------- MODULE MCProgress -----------------------------
(* A run of NTests tests, each of which announces up to Steps steps and goes     *)
(* them, or fails before or after that; then its bar is completed in one go.     *)
(* Every such run ends with complete bars, and is accepted as a log; what is     *)
(* accepted is no longer so when any step is left out or repeated.              *)
EXTENDS Progress
CONSTANTS NTests, Steps
Default == 3
VARIABLES bars, pc, log
vars == <<bars, pc, log>>
Ev(k, t, x) == [k |-> k, t |-> t, x |-> x, m |-> 1]
Do(e) == bars' = Apply(bars, e) /\ log' = Append(log, e)
Init == /\ bars = [t \in 1..NTests |-> [NoBar EXCEPT !.total = Default]]
        /\ log = [t \in 1..NTests |-> Ev("add", t, Default)]
        /\ pc = "next"
Cur == Cardinality({t \in 1..NTests : bars[t].over}) + 1
Start == pc = "next" /\ Cur <= NTests /\ pc' = "begun" /\ Do(Ev("start", Cur, 0))
Announce == pc = "begun" /\ pc' = "busy" /\ \E x \in 1..Steps : Do(Ev("total", Cur, x))
Step == pc = "busy" /\ bars[Cur].done < bars[Cur].total /\ pc' = pc /\ Do(Ev("adv", Cur, 1))
Fail == /\ pc \in {"begun", "busy"} /\ bars[Cur].done < bars[Cur].total
        /\ pc' = "done" /\ Do(Ev("adv", Cur, bars[Cur].total - bars[Cur].done))
Succeed == pc = "busy" /\ bars[Cur].done = bars[Cur].total /\ pc' = "done" /\ UNCHANGED <<bars, log>>
Yield == pc = "done" /\ pc' = "next" /\ Do(Ev("yield", Cur, 0))
Next == Start \/ Announce \/ Step \/ Fail \/ Succeed \/ Yield
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

WithinOK == \A t \in 1..NTests : bars[t].done <= bars[t].total
TurnsOK == Cardinality({t \in 1..NTests : bars[t].on /\ ~bars[t].over}) <= 1
OverOK == \A t \in 1..NTests : bars[t].over => bars[t].done = bars[t].total
LegalOK == LogBad(log) \in {0, Len(log) + 1}
Finished == Cur > NTests
AcceptOK == Finished => LogBad(log) = 0
Without(i) == SubSeq(log, 1, i - 1) \o SubSeq(log, i + 1, Len(log))
Twice(i) == SubSeq(log, 1, i) \o SubSeq(log, i, Len(log))
RejectOK == Finished => \A i \in 1..Len(log) :
    log[i].k = "adv" => LogBad(Without(i)) # 0 /\ LogBad(Twice(i)) # 0
(* no bar ever goes back *)
Ratio(b, c) == b.done * c.total <= c.done * b.total
ForwardOK == [][\A t \in 1..NTests : Ratio(bars[t], bars'[t])]_vars
EndOK == <>Finished
=============================================================================

------------------------------- MODULE MCGen -------------------------------
(* Small generators x -> a x mod m: Schrage's method is multiplication, for      *)
(* every state; and all schedules of Reads reads from NGens generators (one of   *)
(* which may be made late), which are emitted: each is as if it were alone.      *)
EXTENDS Generators, Json, CSV, IOUtils
CONSTANTS NGens, Reads
Small == {<<3, 31>>, <<7, 101>>, <<11, 8191>>, <<31, 10007>>}
ASSUME \A am \in Small : \A x \in 0..(am[2] - 1) : Schrage(am[1], am[2], x) = (am[1] * x) % am[2]
ASSUME \A x \in 0..30 : BitOf(31, x) = IF 2 * x >= 31 THEN 1 ELSE 0
(* the value which Park and Miller publish to check implementations *)
ASSUME FoldLeft(LAMBDA x, i : NextState(x), 1, [i \in 1..10000 |-> i]) = 1043618065
ASSUME SeedState(1, <<21, 4748, 3647>>) = 0 /\ SeedState(-1, <<1>>) = Mod - 1 /\ SeedState(1, <<21, 4748, 3648>>) = 1
VARIABLES state, sched
vars == <<state, sched>>
G == 0..(NGens - 1)
Start(g) == 1 + 1000003 * g
Init == state = [g \in G |-> Start(g)] /\ sched = << >>
Next == /\ Len(sched) < Reads
        /\ \E g \in G : state' = [state EXCEPT ![g] = NextState(@)] /\ sched' = Append(sched, g)
        /\ IF Len(sched') = Reads THEN CSVWrite("%1$s", <<ToJson([sched |-> sched'])>>, IOEnv.OUT) ELSE TRUE
Spec == Init /\ [][Next]_vars
AloneOK == \A g \in G :
    state[g] = FoldLeft(LAMBDA x, i : NextState(x), Start(g), SelectSeq(sched, LAMBDA h : h = g))
RangeOK == \A g \in G : state[g] \in 1..(Mod - 1)
FrameOK == [][Cardinality({g \in G : state'[g] # state[g]}) <= 1]_vars
=============================================================================

------------------------------- MODULE MCCli -------------------------------
(* All states which the commands lead to, from an empty directory, with some     *)
(* valid and invalid data files, NOut results and NHtml report paths; every      *)
(* command in every state is emitted, with a history which leads there.          *)
EXTENDS Cli, Json, CSV, IOUtils
CONSTANTS NValid, NInvalid, NOut, NHtml, EmitOn
Paths == 1..(NOut + NHtml)
(* data d fails in some tests, another set for each d *)
Outcome(d, t) == [t |-> t, ok |-> IF (t + d) % 4 = 0 THEN 0 ELSE 1, multi |-> IF t \in {7, 11, 14, 15} THEN 1 ELSE 0,
                  dig |-> 100 * d + t, txt |-> 100 * d + t, f |-> 500, c |-> "zero", q |-> 500000000]
Info == [d \in 1..(NValid + NInvalid) |->
           IF d <= NValid THEN [valid |-> TRUE, tests |-> [t \in 1..NTests |-> Outcome(d, t)]]
           ELSE [valid |-> FALSE, tests |-> << >>]]
VARIABLES files, hist, last
vars == <<files, hist, last>>
Cmds == [op : {"run"}, d : 0..(NValid + NInvalid), out : 1..NOut]
        \cup [op : {"read"}, from : 1..NOut]
        \cup [op : {"report"}, from : 1..NOut, out : (NOut + 1)..(NOut + NHtml)]
        \cup [op : {"example"}, d : {1, NValid + NInvalid}, t : {0, 3, 4}]
Init == files = [p \in Paths |-> Absent] /\ hist = << >> /\ last = Effect(files, "ok", 0, Quiet)
Next == \E c \in Cmds :
    LET e == Do(files, Info, c) IN
    /\ files' = e.files /\ last' = e /\ hist' = Append(hist, c)
    /\ IF EmitOn THEN CSVWrite("%1$s", <<ToJson([cmds |-> hist'])>>, IOEnv.OUT) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == files

Cmd == hist'[Len(hist')]
(* results files are only ever written by runs, which succeed on valid data *)
WritesOK == [][ \A p \in Paths : files'[p] # files[p] =>
    /\ last'.exit = "ok"
    /\ Cmd.op \in {"run", "report"} /\ Cmd.out = p
    /\ files'[p] = IF Cmd.op = "run" THEN Results(Cmd.d) ELSE Html(files[Cmd.from].d) ]_vars
RefusesOK == [][ last'.exit = "error" => files' = files ]_vars
RunOK == [][ Cmd.op = "run" => (last'.exit = "ok") = (Cmd.d \in 1..NValid) ]_vars
(* what is read is what was printed, less the tests which could not run *)
ReadOK == [][ Cmd.op = "read" /\ last'.exit = "ok" =>
    LET d == files[Cmd.from].d
        ran == Do(files, Info, [op |-> "run", d |-> d, out |-> 1])
    IN /\ last'.shows = ran.shows
       /\ Sections(last'.outs) = SelectSeq(Sections(ran.outs), LAMBDA s : s.ok = 1)
       /\ RestOf(last'.outs) = RestOf(ran.outs)
       /\ TableOf(last'.outs) = SelectSeq(TableOf(ran.outs), LAMBDA o : o.ok = 1)
       /\ Stored(Info, d) = [i \in 1..Len(last'.outs) |-> <<last'.outs[i].t, last'.outs[i].dig>>] ]_vars
=============================================================================

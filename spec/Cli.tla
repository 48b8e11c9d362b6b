-------------------------------- MODULE Cli --------------------------------
(* The commands as a state machine over the files they write. A data file d is   *)
(* described by info[d]: whether it is valid, its values, and the outcome of     *)
(* each test on them, [t, ok, multi, dig, txt, f, c, q] (dig identifies the      *)
(* result, txt its text or the text of its error). A results file holds d of the *)
(* run which wrote it, an html file that of its report.                          *)
EXTENDS Print
NTests == 15
Absent == [kind |-> "none", d |-> 0]
Results(d) == [kind |-> "res", d |-> d]
Html(d) == [kind |-> "html", d |-> d]

Succeeded(info, d) == SelectSeq(info[d].tests, LAMBDA o : o.ok = 1)
(* the sections which are printed: of tests in order, by [t, ok, txt] *)
Section(o) == [t |-> o.t, ok |-> o.ok, txt |-> o.txt]
Sections(outs) == [i \in 1..Len(outs) |-> Section(outs[i])]
Stored(info, d) == LET s == Succeeded(info, d) IN [i \in 1..Len(s) |-> <<s[i].t, s[i].dig>>]

(* the effect of a command: the files after it, whether it exits with 0, and    *)
(* what it prints: nothing but an error, or the sequence of d and the outcomes  *)
Quiet == << >>
Effect(files, exit, shows, outs) == [files |-> files, exit |-> exit, shows |-> shows, outs |-> outs]
Refuse(files) == Effect(files, "error", 0, Quiet)
Do(files, info, c) ==
    CASE c.op = "run" ->
           IF c.d = 0 THEN Refuse(files)
           ELSE IF ~info[c.d].valid THEN Refuse(files)
           ELSE Effect([files EXCEPT ![c.out] = Results(c.d)], "ok", c.d, info[c.d].tests)
      [] c.op = "read" ->
           IF files[c.from].kind # "res" THEN Refuse(files)
           ELSE Effect(files, "ok", files[c.from].d, Succeeded(info, files[c.from].d))
      [] c.op = "report" ->
           IF files[c.from].kind # "res" THEN Refuse(files)
           ELSE Effect([files EXCEPT ![c.out] = Html(files[c.from].d)], "ok", 0, Quiet)
      [] c.op = "example" ->     \* all tests, or just test c.t
           IF ~info[c.d].valid THEN Refuse(files)
           ELSE IF c.t = 0 THEN Effect(files, "ok", c.d, info[c.d].tests)
           ELSE Effect(files, IF info[c.d].tests[c.t].ok = 1 THEN "ok" ELSE "error", c.d,
                       <<info[c.d].tests[c.t]>>)
=============================================================================

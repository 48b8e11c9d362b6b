------------------------------ MODULE TraceCli ------------------------------
(* Validates recorded histories of commands. INFO describes the data files, by   *)
(* their bytes or numbered lines (line 1 holds tails, 2 heads, 0 nothing); seq   *)
(* identifies the sequence.                                                      *)
EXTENDS Cli, Parse, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
InfoJ == TLCEval(ndJsonDeserialize(IOEnv.INFO))
ValuesIn(j) == IF j.form = "bytes" THEN LET b == TLCEval(BitsOfBytes(j.lines)) IN [i \in 1..Len(b) |-> b[i] + 1]
               ELSE ValuesOfLines(j.lines)
DataOf(j) == LET v == TLCEval(ValuesIn(j))
             IN [valid |-> j.malformed = 0 /\ Binary(v), seq |-> j.seq,
                 bits |-> [i \in 1..Len(v) |-> v[i] - 1], tests |-> j.tests]
Info == TLCEval([d \in 1..Len(InfoJ) |-> TLCEval(DataOf(InfoJ[d]))])
VARIABLE l

(* what the directory must look like: [path, kind, seq, results] for each file *)
FileOf(f, p) == IF f.kind = "res" THEN [path |-> p, kind |-> "res", seq |-> Info[f.d].seq,
                                        results |-> Stored(Info, f.d)]
                ELSE [path |-> p, kind |-> f.kind, seq |-> 0, results |-> << >>]
FilesOK(files, obs) ==
    LET there == SelectSeq([p \in 1..Len(files) |-> p], LAMBDA p : files[p].kind # "none")
    IN obs = [i \in 1..Len(there) |-> FileOf(files[there[i]], there[i])]
SeqOK(c, e) == IF e.shows = 0 THEN c.obs.rows = << >>
               ELSE PrintedOK(c.obs.rows, c.obs.omit, c.obs.after, Info[e.shows].bits, c.cols)
Whole(c) == c.op # "example" \/ c.t = 0    \* a summary is printed
(* the first thing which is wrong about a recorded command, or "none" *)
Wrong(files, c) ==
    LET e == Do(files, Info, c) o == c.obs IN
    CASE o.crash # 0 -> "crash"
      [] (o.exit = 0) # (e.exit = "ok") -> "exit"
      [] e.exit = "error" /\ o.err = 0 -> "message"
      [] ~FilesOK(e.files, o.files) -> "files"
      [] [i \in 1..Len(o.secs) |-> Section(o.secs[i])] # Sections(e.outs) -> "sections"
      [] ~SeqOK(c, e) -> "sequence"
      [] e.shows # 0 /\ Whole(c) /\ ~SummaryOK(o.table, o.rest, e.outs) -> "summary"
      [] (e.shows = 0 \/ ~Whole(c)) /\ o.table # << >> -> "summary"
      [] c.op = "report" /\ e.exit = "ok" /\ o.opened # c.out -> "opened"
      [] OTHER -> "none"
Verdict1(h) ==
    LET r == FoldLeft(LAMBDA a, i :
               IF a.bad # 0 THEN a
               ELSE LET w == Wrong(a.files, h.cmds[i]) IN
                    IF w = "none" THEN [files |-> TLCEval(Do(a.files, Info, h.cmds[i]).files), bad |-> 0, why |-> w]
                    ELSE [files |-> a.files, bad |-> i, why |-> w],
             [files |-> [p \in 1..h.npaths |-> Absent], bad |-> 0, why |-> "none"],
             [i \in 1..Len(h.cmds) |-> i])
    IN [id |-> h.id, bad |-> r.bad, why |-> r.why]
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ CSVWrite("%1$s", <<ToJson(Verdict1(Trace[l]))>>, IOEnv.OUT)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

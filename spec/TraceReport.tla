----------------------------- MODULE TraceReport -----------------------------
(* Validates recorded histories of storing and reporting. A line is              *)
(* [id, info: the results, steps: [c, files, docs: numbers of their contents,     *)
(* d: the document of a report, or exit / opened]]                                *)
EXTENDS Report, Json, CSV, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ChartsBad(d, r) ==
    LET x == Expect("monobit", r.enc, << >>, << >>)
        c == ChartsOf("monobit", Expand(r.enc), << >>, << >>, x, r.o)[1]
        dist == RefDist(x.p)
        counts == SelectSeq(d.charts, LAMBDA g : ChartBad(g, c) = "")
        dists == SelectSeq(d.charts, LAMBDA g : dist.title \in ToSet(g.titles))
    IN CASE counts = << >> -> "the chart of counts: " \o
              (IF d.charts = << >> THEN "missing" ELSE ChartBad(d.charts[1], c))
         [] dists = << >> -> "the chart of the reference distribution is missing"
         [] OTHER -> ""
DistOf(r) == LET x == Expect("monobit", r.enc, << >>, << >>)
                 d == RefDist(x.p) IN [dist |-> <<d.kind, d.df, d.at>>, stat |-> x.stat]
(* the state of the machine is known by what the files and documents hold *)
OnStep(st, ids, i, e) ==
    LET c == e.c
        n == Do(st, c)
        kept == \A f \in DOMAIN e.files : i > 1 /\ c.op = "report" => e.files[f] = ids.files[f]
        others == \A o \in DOMAIN e.docs : (c.op = "store" \/ o # c.o) => e.docs[o] = ids.docs[o]
        bad == CASE c.op = "report" /\ e.exit # 0 -> "the command fails"
                 [] ~kept -> "it changes a results file"
                 [] ~others -> "it changes another document"
                 [] c.op = "store" -> ""
                 [] e.opened # 1 -> "it does not open the document"
                 [] OTHER -> ""
    IN [st |-> n, ids |-> [files |-> e.files, docs |-> e.docs], bad |-> bad]
StepDoc(st, c, e, info) == IF c.op # "report" \/ e.exit # 0 THEN "" ELSE
    LET r == info[st.docs[c.o]]
        m == DocBad(e.d, r)
    IN IF m # "" THEN m ELSE ChartsBad(e.d, r)
Walk_(h) ==
    FoldLeft(LAMBDA a, i :
        LET s == OnStep(a.st, a.ids, i, h.steps[i])
            m == IF s.bad # "" THEN s.bad ELSE StepDoc(s.st, h.steps[i].c, h.steps[i], h.info)
        IN [st |-> s.st, ids |-> s.ids, of |-> Append(a.of, IF h.steps[i].c.op = "report" THEN s.st.docs[h.steps[i].c.o] ELSE 0),
            bads |-> IF m = "" THEN a.bads ELSE Append(a.bads, <<i, m>>)],
        [st |-> [files |-> [f \in 1..h.nf |-> 0], docs |-> [o \in 1..h.no |-> 0]],
         ids |-> [files |-> Zeros(h.nf), docs |-> Zeros(h.no)], bads |-> << >>, of |-> << >>],
        [i \in 1..Len(h.steps) |-> i])
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET w == Walk_(Trace[l])
           IN CSVWrite("%1$s", <<ToJson([id |-> Trace[l].id, bads |-> w.bads, of |-> w.of,
                 dist |-> [r \in 1..Len(Trace[l].info) |-> DistOf(Trace[l].info[r])]])>>, IOEnv.OUT)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================

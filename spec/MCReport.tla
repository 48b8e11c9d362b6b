------------------------------ MODULE MCReport ------------------------------
(* All histories of storing results and reporting them, emitted; and the laws of   *)
(* the text of documents, on all short texts of the characters which matter.      *)
EXTENDS Report, Json, CSV, IOUtils
CONSTANTS NF, NR, NO, MaxH, MaxT
VARIABLES st, hist
vars == <<st, hist>>
Init == st = [files |-> [f \in 1..NF |-> 0], docs |-> [o \in 1..NO |-> 0]] /\ hist = << >>
Cmds == [op : {"store"}, f : 1..NF, r : 1..NR] \cup
        {c \in [op : {"report"}, f : 1..NF, o : 1..NO] : st.files[c.f] # 0}
Next == /\ Len(hist) < MaxH
        /\ \E c \in Cmds :
             /\ st' = Do(st, c) /\ hist' = Append(hist, c)
             /\ IF c.op = "report" /\ (Len(hist') = MaxH \/ Len(hist') = 2)
                THEN CSVWrite("%1$s", <<ToJson([h |-> hist'])>>, IOEnv.OUT) ELSE TRUE
Spec == Init /\ [][Next]_vars
(* a document is of the results which its file held when it was made, whatever      *)
(* happened to the file since                                                     *)
LastAt(P(_)) == LET is == {i \in 1..Len(hist) : P(hist[i])}
                IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : j <= i
HeldAt(f, k) == LET is == {i \in 1..k : hist[i].op = "store" /\ hist[i].f = f}
                IN IF is = {} THEN 0 ELSE hist[CHOOSE i \in is : \A j \in is : j <= i].r
DocsOK == \A o \in 1..NO :
    LET k == LastAt(LAMBDA c : c.op = "report" /\ c.o = o)
    IN st.docs[o] = IF k = 0 THEN 0 ELSE HeldAt(hist[k].f, k)
FilesOK == \A f \in 1..NF : st.files[f] = HeldAt(f, Len(hist))
(* laws of texts: & < > ; l t a # 6 0 space / *)
Alphabet == {38, 60, 62, 59, 108, 116, 97, 35, 54, 48, 32, 47, 34, 39}
Texts == UNION {[1..k -> Alphabet] : k \in 0..MaxT}
ASSUME \A t \in Texts : /\ Reads(Esc(t)) = t /\ Tags(Esc(t)) = 0
                        /\ Reads(Esc(Esc(t))) = Esc(t)
(* an unescaped text is only read as itself if it has no markup and no reference *)
ASSUME \A t \in Texts : ({38, 60} \cap ToSet(t) = {}) => (Reads(t) = t /\ Tags(t) = 0)
ASSUME Reads(<<38, 108, 116, 59, 98>>) = <<60, 98>> /\ Tags(<<60, 98, 62>>) = 1
       /\ Reads(<<97, 60, 32>>) = <<97, 60, 32>> /\ Reads(<<38, 35, 120, 51, 99, 59>>) = <<60>>
       /\ Reads(<<38, 35, 51, 57, 59>>) = <<39>> /\ Reads(<<38, 108, 116>>) = <<38, 108, 116>>
(* the acceptance of documents: what the document of a result says is accepted, and *)
(* everything which differs from it is not                                        *)
R == [tests |-> <<"monobit", "runs", "cusum">>, hx |-> <<60, 98, 62>>, tx |-> <<97>>, heads |-> 3, tails |-> 5,
      n |-> 8, s2 |-> [f |-> 70, c |-> "gt"], p3 |-> [f |-> 479, c |-> "gt"]]
D == [sections |-> <<"monobit">>, warned |-> <<"runs", "cusum">>, faces |-> <<97>> \o And \o Esc(<<60, 98, 62>>),
      diffs |-> <<2, 2>>, n |-> <<8>>, stat |-> <<71>>, p |-> <<480>>, ids |-> <<"a", "b">>,
      embeds |-> <<"a", "b">>]
ASSUME DocBad(D, R) = ""
ASSUME \A d \in {[D EXCEPT !.sections = << >>], [D EXCEPT !.sections = <<"monobit", "monobit">>],
                 [D EXCEPT !.warned = <<"runs">>], [D EXCEPT !.warned = <<"cusum", "runs">>],
                 [D EXCEPT !.warned = <<"monobit", "runs", "cusum">>],
                 [D EXCEPT !.faces = <<97>> \o And \o <<60, 98, 62>>],
                 [D EXCEPT !.faces = Esc(<<60, 98, 62>>) \o And \o <<97>>],
                 [D EXCEPT !.faces = <<97>> \o And \o Esc(Esc(<<60, 98, 62>>))],
                 [D EXCEPT !.diffs = <<2, 3>>], [D EXCEPT !.diffs = << >>], [D EXCEPT !.n = <<7>>],
                 [D EXCEPT !.stat = <<70>>], [D EXCEPT !.p = <<479>>], [D EXCEPT !.ids = <<"a">>],
                 [D EXCEPT !.embeds = <<"a", "a">>], [D EXCEPT !.embeds = <<"a">>],
                 [D EXCEPT !.ids = <<"a", "b", "b">>]} : DocBad(d, R) # ""
=============================================================================

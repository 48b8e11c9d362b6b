------------------------------- MODULE Report -------------------------------
(* Report documents: a machine over results files and documents, and what a       *)
(* document says about the results which it is made of.                           *)
(*                                                                                *)
(* The text of a document is a sequence of code points; Reads gives the characters *)
(* which a browser shows for it, and Tags how many tags or comments it opens.      *)
EXTENDS Charts

Alnum(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
Letter(c) == c \in 65..90 \/ c \in 97..122
Dec(s) == FoldLeft(LAMBDA a, c : IF a > 1114111 THEN a ELSE 10 * a + (c - 48), 0, s)
HexD(c) == IF c <= 57 THEN c - 48 ELSE ((c - 65) % 32) + 10
Hex(s) == FoldLeft(LAMBDA a, c : IF a > 1114111 THEN a ELSE 16 * a + HexD(c), 0, s)
(* a reference without its & and ; : the character, or 0 *)
Ref(s) == CASE s = <<97, 109, 112>> -> 38
            [] s = <<108, 116>> -> 60
            [] s = <<103, 116>> -> 62
            [] s = <<113, 117, 111, 116>> -> 34
            [] s = <<97, 112, 111, 115>> -> 39
            [] Len(s) > 2 /\ s[1] = 35 /\ s[2] \in {88, 120} -> Hex(SubSeq(s, 3, Len(s)))
            [] Len(s) > 1 /\ s[1] = 35 -> Dec(Tail(s))
            [] OTHER -> 0
Plain(st, c) == CASE c = 38 -> [st EXCEPT !.mode = "ref", !.ref = << >>]
                  [] c = 60 -> [st EXCEPT !.mode = "lt"]
                  [] OTHER -> [st EXCEPT !.mode = "data", !.out = Append(@, c)]
Flush(st) == CASE st.mode = "ref" -> [st EXCEPT !.mode = "data", !.out = @ \o <<38>> \o st.ref]
               [] st.mode = "lt" -> [st EXCEPT !.mode = "data", !.out = Append(@, 60)]
               [] OTHER -> st
Feed(st, c) ==
    CASE st.mode = "data" -> Plain(st, c)
      [] st.mode = "ref" -> IF c = 59 /\ Ref(st.ref) # 0
                            THEN [st EXCEPT !.mode = "data", !.out = Append(@, Ref(st.ref))]
                            ELSE IF Alnum(c) \/ (c = 35 /\ st.ref = << >>)
                            THEN [st EXCEPT !.ref = Append(@, c)]
                            ELSE Plain(Flush(st), c)
      [] st.mode = "lt" -> IF Letter(c) \/ c \in {33, 47, 63}
                           THEN [st EXCEPT !.mode = "tag", !.tags = @ + 1]
                           ELSE Plain(Flush(st), c)
      [] OTHER -> IF c = 62 THEN [st EXCEPT !.mode = "data"] ELSE st
Html(s) == Flush(FoldLeft(Feed, [mode |-> "data", out |-> << >>, ref |-> << >>, tags |-> 0], s))
Reads(s) == Html(s).out
Tags(s) == Html(s).tags
(* how a text is written, such that it is read again *)
Esc(s) == FoldLeft(LAMBDA a, c : a \o (CASE c = 38 -> <<38, 97, 109, 112, 59>>
                                        [] c = 60 -> <<38, 108, 116, 59>>
                                        [] c = 62 -> <<38, 103, 116, 59>>
                                        [] c = 34 -> <<38, 35, 51, 52, 59>>
                                        [] c = 39 -> <<38, 35, 51, 57, 59>>
                                        [] OTHER -> <<c>>), << >>, s)

(* ------------------------------------------------------------ the machine *)
(* files[f], docs[o]: number of the results which it is of, or 0 *)
Stored(files, f, r) == [files EXCEPT ![f] = r]
Reported(docs, o, r) == [docs EXCEPT ![o] = r]
Do(st, c) ==
    IF c.op = "store" THEN [st EXCEPT !.files = Stored(@, c.f, c.r)]
    ELSE [st EXCEPT !.docs = Reported(@, c.o, st.files[c.f])]

(* ----------------------------------------------------------- the document *)
(* r: results, [tests, max, min, and: faces as code points, n, heads, tails, s2, p3: the    *)
(* statistic and p-value by their hundredths and thousandths]; d: the document     *)
Index(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Ordered(s, all) == \A i \in 1..Len(s) : s[i] \in ToSet(all)
                                        /\ (i > 1 => Index(all, s[i - 1]) < Index(all, s[i]))
And == <<32, 97, 110, 100, 32>>
SectionsBad(d, tests) ==
    CASE ~Ordered(d.sections, tests) -> "its sections are not those of the results, in order"
      [] ~Ordered(d.warned, tests) -> "it warns of other tests"
      [] \E t \in ToSet(tests) : t \in ToSet(d.sections) /\ t \in ToSet(d.warned) ->
           "a section which there is, is said to be missing"
      [] \E t \in ToSet(tests) : t \notin ToSet(d.sections) /\ t \notin ToSet(d.warned) ->
           "a result is left out without a warning"
      [] "monobit" \notin ToSet(d.sections) -> "the monobit section is missing"
      [] OTHER -> ""
FacesBad(d, r) ==
    LET one == r.heads >= r.tails
        two == r.heads <= r.tails
        ht == r.hx \o And \o r.tx
        th == r.tx \o And \o r.hx
        got == Reads(d.faces)
    IN CASE Tags(d.faces) > 0 -> "a face is read as markup"
         [] ~(one /\ got = ht) /\ ~(two /\ got = th) -> "it states other faces, or in another order"
         [] OTHER -> ""
RoundsTo(k, x) == RoundOK(k, x.f, x.c)
NumbersBad(d, r) ==
    CASE d.diffs = << >> \/ ToSet(d.diffs) # {Abs(r.heads - r.tails)} -> "it states another difference"
      [] d.n # <<r.n>> -> "it states another length"
      [] Len(d.stat) # 1 \/ ~RoundsTo(d.stat[1], r.s2) -> "it states another statistic"
      [] Len(d.p) # 1 \/ ~RoundsTo(d.p[1], r.p3) -> "it states another p-value"
      [] OTHER -> ""
(* every chart is embedded once, at an element of its own *)
EmbedsBad(d) ==
    CASE Len(d.embeds) # 2 \/ Cardinality(ToSet(d.embeds)) # 2 -> "it does not show two charts"
      [] \E e \in ToSet(d.embeds) : Len(SelectSeq(d.ids, LAMBDA i : i = e)) # 1 -> "a chart has no place"
      [] OTHER -> ""
DocBad(d, r) ==
    LET bad == <<SectionsBad(d, r.tests), FacesBad(d, r), NumbersBad(d, r), EmbedsBad(d)>>
        is == {i \in 1..Len(bad) : bad[i] # ""}
    IN IF is = {} THEN "" ELSE bad[CHOOSE i \in is : \A j \in is : i <= j]
=============================================================================

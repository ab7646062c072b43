--------------------------- MODULE MarkdownTrace ---------------------------
(* Markdown documents drawn by the real code, judged against Markdown.                                   *)
(* T[tr]: [doc, user: styles of the parent box, err, texts: <<[y, rows: <<runs [s, l]>>]>> in paint order]  *)
EXTENDS Markdown, Json, IOUtils
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, done
vars == <<tr, done>>
Init == tr \in 1..Len(T) /\ done = FALSE
If(c, n) == IF c THEN {n} ELSE {}
Str(row) == FoldLeft(LAMBDA a, r : a \o r.s, "", row)
Strs(rows) == [i \in 1..Len(rows) |-> Str(rows[i])]
\* how the numeric variant is drawn is not a question of documents (see T03)
NoVar(rows) == [i \in 1..Len(rows) |-> FoldLeft(LAMBDA a, r : IF a # <<>> /\ Last(a).l = [r.l EXCEPT !.variant = ""]
                                                            THEN [a EXCEPT ![Len(a)].s = @ \o r.s]
                                                            ELSE Append(a, [s |-> r.s, l |-> [r.l EXCEPT !.variant = ""]]), <<>>, rows[i])]
Judge(t) ==
  LET w == Texts(t.user, t.doc)
      n == Len(w)
      got == [i \in 1..Len(t.texts) |-> Strs(t.texts[i])]
      want == [i \in 1..n |-> Strs(w[i].rows)]
  IN IF t.err # "" THEN {"err"}
     ELSE IF got # want THEN IF Len(got) = n /\ (\A i \in 1..n : Cardinality({j \in 1..n : got[j] = want[i]}) = Cardinality({j \in 1..n : want[j] = want[i]}))
                             THEN {"order"} ELSE {"text"}
     ELSE UNION {If(IF w[i].plain THEN \E r \in 1..Len(t.texts[i]) : \E j \in 1..Len(t.texts[i][r]) : t.texts[i][r][j].l.font # w[i].rows[1][1].l.font
                    ELSE NoVar(t.texts[i]) # NoVar(w[i].rows), "style") : i \in 1..n}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tr
        /\ PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(Judge(T[tr])), info |-> [want |-> Texts(T[tr].user, T[tr].doc)]]))
Spec == Init /\ [][Next]_vars
=============================================================================

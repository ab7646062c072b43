----------------------------- MODULE TextTrace -----------------------------
(* Texts drawn by the real code, judged against Text.                                                    *)
(* T: [cfgs: styles etc.; trs: [in, m, cfg, styleOf base, ok, lines, looks, code, ...]]                  *)
EXTENDS Text, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, done
vars == <<tr, done>>
Init == tr \in 1..Len(D) /\ done = FALSE
If(c, n) == IF c THEN {n} ELSE {}
\* tabs are replaced by blanks in code
Tabs(cs, n) == IF n < 0 THEN cs
               ELSE FoldLeft(LAMBDA a, c : IF c = "\t" THEN a \o [i \in 1..n |-> " "] ELSE Append(a, c), <<>>, cs)
RECURSIVE DropStart(_)
DropStart(q) == IF q # <<>> /\ IsNl(Head(q)) THEN DropStart(Tail(q)) ELSE q
StartNls(q) == Len(q) - Len(DropStart(q))
Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b) == Abs(a - b) <= 2

\* observed characters of a row: a sequence of runs [s |-> characters, l |-> index into t.looks]
CharsOf(row) == FoldLeft(LAMBDA a, r : a \o [i \in 1..Len(r.s) |-> [c |-> r.s[i], l |-> r.l]], <<>>, row.r)
Txt(cs) == [i \in 1..Len(cs) |-> cs[i].c]
\* all places a token style may take among the user styles
NoVar(l) == [l EXCEPT !.variant = ""]
Merged(base, tok, us) == {Look(Eff(base, SubSeq(us, 1, p) \o <<tok>> \o SubSeq(us, p + 1, Len(us)))) : p \in 0..Len(us)}
\* number i of n, zero-padded, and a blank
Number(i, n) == LET s == ToString(i)
                    z == FoldLeft(LAMBDA a, _j : "0" \o a, s, [j \in 1..(Len(ToString(n)) - Len(s)) |-> j]) \o " "
                IN [j \in 1..Len(z) |-> SubSeq(z, j, j)]

\* body: shown items; lead: number of empty lines before them
Rows(t, base, body, lead) ==
  LET ls == Lines(body)
      n == Len(ls) + lead
      all == [i \in 1..n |-> [i |-> i, no |-> IF t.lineno THEN Number(i, n) ELSE <<>>,
                              q |-> IF i <= lead THEN <<>> ELSE Chars(ls[i - lead])]]
  IN SelectSeq(all, LAMBDA w : w.no # <<>> \/ w.q # <<>>)

Against(t, base, body, lead) ==
  LET want == Rows(t, base, body, lead)
      obs == [i \in 1..Len(t.rows) |-> CharsOf(t.rows[i])]
      textbad == \/ Len(obs) # Len(want)
                 \/ \E i \in 1..Len(want) : Txt(obs[i]) # want[i].no \o [j \in 1..Len(want[i].q) |-> want[i].q[j].c]
      user(st) == StylesOf(t.styles, st)
      looks(w, j) == IF t.code THEN Merged(base, t.styles[t.tok[w.i - lead][j]], user(w.q[j].st))
                     ELSE {Look(Eff(base, user(w.q[j].st)))}
      seen(i, j) == t.looks[obs[i][j + Len(want[i].no)].l]
      stylebad == \E i \in 1..Len(want) : \E j \in 1..Len(want[i].q) :
                     NoVar(seen(i, j)) \notin {NoVar(l) : l \in looks(want[i], j)}
      \* numeric variants; the known finding: only those of the base style apply, and to the first line only
      varbad(i, j) == seen(i, j).variant \notin {l.variant : l \in looks(want[i], j)}
      asknown(i, j) == seen(i, j).variant = IF want[i].i = 1 THEN base.variant ELSE ""
      bads == {<<i, j>> \in (1..Len(want)) \X (1..200) : j <= Len(want[i].q) /\ varbad(i, j)}
      lh == LineHeight(base)
      rowbad == \E i \in 1..Len(t.rows) : ~Close(t.rows[i].y, (want[i].i - 1) * lh) \/ ~Close(t.rows[i].x, 0)
  IN IF textbad THEN {"text"} ELSE If(stylebad, "style") \cup If(rowbad, "rows")
       \cup If(\E p \in bads : ~asknown(p[1], p[2]), "variant") \cup If(\E p \in bads : asknown(p[1], p[2]), "variant-known")

\* how bad a reading of the trace is (several are allowed for code with leading line breaks)
Grade(b) == Cardinality(b) + (IF "text" \in b THEN 10 ELSE 0) + (IF "style" \in b THEN 5 ELSE 0)
Judge(t) ==
  LET r == ReadAll(Tabs(t.in, t.tab), t.m)
      base == Compose(t.dflt, t.own)
      full == Shown(r)
      chars == Chars(full)
      body == IF t.code THEN DropStart(chars) ELSE full
      leads == IF t.code THEN {0, StartNls(chars), StartNls(Chars(r.out))} ELSE {0}
      bads == {Against(t, base, body, l) : l \in leads}
  IN IF ~Complete(r) THEN If(t.ok, "unclosed")
     ELSE IF Undefined(t.styles, Names(r)) THEN If(t.ok, "undefined")
     ELSE IF ~t.ok THEN {"rejected"}
     ELSE IF {} \in bads THEN {} ELSE CHOOSE b \in bads : \A c \in bads : Grade(b) <= Grade(c)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tr
        /\ PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(Judge(D[tr])), info |-> [in |-> D[tr].in]]))
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE XmlOut -------------------------------
(* XML documents as sequences of character codes: how they are read, and how values are written.          *)
(* Read(cs) = [bad, ev]: the events of a document: <<"o", name, attributes <<name, value>> >>, <<"t", text>>, <<"c", name>>.   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
LT == 60  GT == 62  AMP == 38  APOS == 39  QUOT == 34  BLANK == 32  NBSP == 160  SEMI == 59  HASH == 35  EQ == 61  SLASH == 47
BANG == 33  QM == 63  MINUS == 45  LB == 91  RB == 93  COLON == 58
IsSpace(c) == c \in {32, 9, 10, 13}
Legal(c) == c \in {9, 10, 13} \/ (c >= 32 /\ c <= 55295) \/ (c >= 57344 /\ c <= 65533) \/ c >= 65536
NameChar(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ (c >= 48 /\ c <= 58) \/ c \in {45, 46, 95} \/ c >= 192
Digit(c, base) == CASE c >= 48 /\ c <= 57 -> c - 48 [] base = 16 /\ c >= 97 /\ c <= 102 -> c - 87 [] base = 16 /\ c >= 65 /\ c <= 70 -> c - 55 [] OTHER -> -1
Number(ds, base) == FoldLeft(LAMBDA r, c : IF r < 0 \/ Digit(c, base) < 0 \/ r > 2000000 THEN -1 ELSE r * base + Digit(c, base), IF ds = <<>> THEN -1 ELSE 0, ds)
\* the character of an entity, -1: unknown
Entity(n) == CASE n = <<97, 109, 112>> -> AMP [] n = <<108, 116>> -> LT [] n = <<103, 116>> -> GT
               [] n = <<97, 112, 111, 115>> -> APOS [] n = <<113, 117, 111, 116>> -> QUOT
               [] Len(n) > 1 /\ n[1] = HASH -> IF n[2] = 120 THEN Number(SubSeq(n, 3, Len(n)), 16) ELSE Number(Tail(n), 10)
               [] OTHER -> -1
Prefix(name) == LET i == SelectInSeq(name, LAMBDA c : c = COLON) IN IF i = 0 THEN <<>> ELSE SubSeq(name, 1, i - 1)
XMLNS == <<120, 109, 108, 110, 115>>
XML == <<120, 109, 108>>
\* prefixes declared by attributes
Declares(as) == {SubSeq(as[i][1], 7, Len(as[i][1])) : i \in {j \in 1..Len(as) : Prefix(as[j][1]) = XMLNS}}

\* reader state: [m: mode, b: buffer, b2: second buffer (names), q: quote, as: attributes, st: open elements [n, ps: declared prefixes], ev, bad]
Start == [m |-> "text", b |-> <<>>, n |-> <<>>, a |-> <<>>, e |-> <<>>, q |-> 0, as |-> <<>>, st |-> <<>>, ev |-> <<>>, bad |-> FALSE]
Flush(s) == IF s.b = <<>> THEN s
            ELSE IF s.st = <<>> THEN [s EXCEPT !.b = <<>>, !.bad = @ \/ \E i \in 1..Len(s.b) : ~IsSpace(s.b[i])]
            ELSE [s EXCEPT !.b = <<>>, !.ev = Append(@, <<"t", s.b>>)]
Opened(s, empty) ==
  LET ps == (IF s.st = <<>> THEN {XML} ELSE Last(s.st).ps) \cup Declares(s.as)
      known(n) == Prefix(n) = <<>> \/ Prefix(n) \in ps \cup {XMLNS}
      twice == \E i, j \in 1..Len(s.as) : i < j /\ s.as[i][1] = s.as[j][1]
      ok == known(s.n) /\ (\A i \in 1..Len(s.as) : known(s.as[i][1])) /\ ~twice /\ ~(s.st = <<>> /\ s.ev # <<>>)
      o == [s EXCEPT !.m = "text", !.b = <<>>, !.as = <<>>, !.bad = @ \/ ~ok, !.ev = Append(@, <<"o", s.n, s.as>>)]
  IN IF empty THEN [o EXCEPT !.ev = Append(@, <<"c", s.n>>)] ELSE [o EXCEPT !.st = Append(@, [n |-> s.n, ps |-> ps])]
Closed(s) == IF s.st = <<>> \/ Last(s.st).n # s.n THEN [s EXCEPT !.bad = TRUE]
             ELSE [s EXCEPT !.m = "text", !.st = Front(@), !.ev = Append(@, <<"c", s.n>>), !.b = <<>>]
Bad(s) == [s EXCEPT !.bad = TRUE]
\* do the last characters read (buffer e and c) end a section
Ends(s, c, w) == LET x == Append(s.e, c) IN Len(x) >= Len(w) /\ SubSeq(x, Len(x) - Len(w) + 1, Len(x)) = w
Tail2(x) == SubSeq(x, Len(x) - 1, Len(x))
Keep2(s, c) == LET x == Append(s.e, c) IN IF Len(x) <= 2 THEN x ELSE Tail2(x)
ReadChar(s, c) ==
  IF s.bad THEN s
  ELSE IF ~Legal(c) THEN Bad(s)
  ELSE CASE s.m = "text" ->
             (CASE c = LT -> [s EXCEPT !.m = "lt", !.e = <<>>]
                [] c = AMP -> [s EXCEPT !.m = "tent", !.e = <<>>]
                [] c = GT /\ Len(s.b) >= 2 /\ Tail2(s.b) = <<RB, RB>> -> Bad(s)
                [] OTHER -> [s EXCEPT !.b = Append(@, c)])
         [] s.m \in {"tent", "aent"} ->
             (IF c # SEMI THEN (IF NameChar(c) \/ (c = HASH /\ s.e = <<>>) THEN [s EXCEPT !.e = Append(@, c)] ELSE Bad(s))
              ELSE IF Entity(s.e) < 0 \/ ~Legal(Entity(s.e)) THEN Bad(s)
              ELSE [s EXCEPT !.m = IF s.m = "tent" THEN "text" ELSE "aval", !.b = Append(@, Entity(s.e))])
         [] s.m = "lt" ->
             (CASE c = BANG -> [s EXCEPT !.m = "bang", !.e = <<>>]
                [] c = QM -> [s EXCEPT !.m = "pi", !.e = <<>>]
                [] c = SLASH -> [Flush(s) EXCEPT !.m = "close", !.n = <<>>]
                [] NameChar(c) -> [Flush(s) EXCEPT !.m = "name", !.n = <<c>>, !.as = <<>>]
                [] OTHER -> Bad(s))
         [] s.m = "pi" -> (IF Ends(s, c, <<QM, GT>>) THEN [s EXCEPT !.m = "text"] ELSE [s EXCEPT !.e = Keep2(s, c)])
         [] s.m = "bang" ->
             (LET x == Append(s.e, c) IN
              CASE x = <<MINUS, MINUS>> -> [s EXCEPT !.m = "comment", !.e = <<>>]
                [] x = <<LB, 67, 68, 65, 84, 65, LB>> -> [s EXCEPT !.m = "cdata", !.e = <<>>]
                [] Len(x) > 7 -> Bad(s)
                [] OTHER -> [s EXCEPT !.e = x])
         [] s.m = "comment" -> (IF Ends(s, c, <<MINUS, MINUS, GT>>) THEN [s EXCEPT !.m = "text"] ELSE [s EXCEPT !.e = Keep2(s, c)])
         [] s.m = "cdata" -> (IF Ends(s, c, <<RB, RB, GT>>) THEN [s EXCEPT !.m = "text", !.b = SubSeq(@, 1, Len(@) - 2)]
                              ELSE [s EXCEPT !.e = Keep2(s, c), !.b = Append(@, c)])
         [] s.m = "close" -> (CASE c = GT -> Closed(s) [] NameChar(c) -> [s EXCEPT !.n = Append(@, c)] [] IsSpace(c) -> s [] OTHER -> Bad(s))
         [] s.m = "name" ->
             (CASE c = GT -> Opened(s, FALSE) [] c = SLASH -> [s EXCEPT !.m = "empty"]
                [] IsSpace(c) -> [s EXCEPT !.m = "intag"] [] NameChar(c) -> [s EXCEPT !.n = Append(@, c)] [] OTHER -> Bad(s))
         [] s.m = "empty" -> (IF c = GT THEN Opened(s, TRUE) ELSE Bad(s))
         [] s.m \in {"intag", "after"} ->
             (CASE c = GT -> Opened(s, FALSE) [] c = SLASH -> [s EXCEPT !.m = "empty"] [] IsSpace(c) -> [s EXCEPT !.m = "intag"]
                [] NameChar(c) /\ s.m = "intag" -> [s EXCEPT !.m = "aname", !.a = <<c>>] [] OTHER -> Bad(s))
         [] s.m = "aname" -> (CASE c = EQ -> [s EXCEPT !.m = "aeq"] [] NameChar(c) -> [s EXCEPT !.a = Append(@, c)] [] OTHER -> Bad(s))
         [] s.m = "aeq" -> (IF c \in {APOS, QUOT} THEN [s EXCEPT !.m = "aval", !.q = c, !.b = <<>>] ELSE Bad(s))
         [] s.m = "aval" ->
             (CASE c = s.q -> [s EXCEPT !.m = "after", !.as = Append(@, <<s.a, s.b>>), !.b = <<>>]
                [] c = LT -> Bad(s)
                [] c = AMP -> [s EXCEPT !.m = "aent", !.e = <<>>]
                [] OTHER -> [s EXCEPT !.b = Append(@, IF IsSpace(c) THEN BLANK ELSE c)])
         [] OTHER -> Bad(s)
Read(cs) == LET s == FoldLeft(ReadChar, Start, cs)
                f == Flush(s)
            IN [bad |-> f.bad \/ f.m # "text" \/ f.st # <<>> \/ f.ev = <<>>, ev |-> f.ev]

\* ------------------------------------------------------------ writing
Esc(c) == CASE c = AMP -> <<AMP, 97, 109, 112, SEMI>> [] c = LT -> <<AMP, 108, 116, SEMI>> [] c = GT -> <<AMP, 103, 116, SEMI>> [] OTHER -> <<c>>
EscText(v) == FlattenSeq([i \in 1..Len(v) |-> IF v[i] = BLANK THEN <<AMP, HASH, 49, 54, 48, SEMI>> ELSE Esc(v[i])])
EscAttr(v) == FlattenSeq([i \in 1..Len(v) |-> IF v[i] = APOS THEN <<AMP, 97, 112, 111, 115, SEMI>> ELSE Esc(v[i])])
\* ------------------------------------------------------------ values on a page
\* Characters MARK + i stand for value i of vs: a run of as many of them as the value is long is the value
MARK == 19968
IsMark(c, vs) == c > MARK /\ c <= MARK + Len(vs)
Subst(cs, vs) ==
  FoldLeft(LAMBDA r, c : IF ~IsMark(c, vs) THEN [out |-> Append(r.out, c), c |-> 0, n |-> 0]
                         ELSE LET n == IF r.c = c /\ r.n < Len(vs[c - MARK]) THEN r.n + 1 ELSE 1
                              IN [out |-> Append(r.out, vs[c - MARK][n]), c |-> c, n |-> n], [out |-> <<>>, c |-> 0, n |-> 0], cs).out
\* blanks of texts are written as non-breaking ones
Blanks(cs) == [i \in 1..Len(cs) |-> IF cs[i] = BLANK THEN NBSP ELSE cs[i]]
SubstEvent(e, vs) == CASE e[1] = "o" -> <<"o", e[2], [i \in 1..Len(e[3]) |-> <<e[3][i][1], Subst(e[3][i][2], vs)>>]>>
                       [] e[1] = "t" -> <<"t", Blanks(Subst(e[2], vs))>>
                       [] OTHER -> e
PlainEvent(e) == IF e[1] = "t" THEN <<"t", Blanks(e[2])>> ELSE e
Whole(i, vs, cs) == \E j \in 0..Len(cs) - Len(vs[i]) : \A l \in 1..Len(vs[i]) : cs[j + l] = MARK + i
InText(i, vs, ev) == \E j \in 1..Len(ev) : ev[j][1] = "t" /\ Whole(i, vs, ev[j][2])
InAttr(i, vs, ev) == \E j \in 1..Len(ev) : ev[j][1] = "o" /\ \E l \in 1..Len(ev[j][3]) : Whole(i, vs, ev[j][3][l][2])
=============================================================================

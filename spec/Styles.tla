------------------------------- MODULE Styles -------------------------------
(* Named styles of a deck (container 1), its slides and boxes.  A container starts with the styles its  *)
(* parent has at that moment; all style objects a caller holds are values of their own.                  *)
EXTENDS Text
Unset == [font |-> "", size |-> -1, color |-> "", opacity |-> "", bold |-> "", italic |-> "", variant |-> "",
          align |-> "", spacing |-> -1, prio |-> 0]
\* s: [cont: sequence of name -> style, objs: styles held by the caller, texts: what the texts made so far look like]
S0(styles) == [cont |-> <<styles>>, objs |-> <<>>, texts |-> <<>>]
Has(s, c, n) == n \in DOMAIN s.cont[c]
Put1(f, n, v) == (n :> v) @@ f
Full(s, c, n) == IF n = "default" THEN s.cont[c][n] ELSE Compose(s.cont[c]["default"], s.cont[c][n])
\* a text 0~a{1~b{2}} of base style `base`: the looks of its three characters
LooksOf(s, c, base, names) ==
  [i \in 1..(Len(names) + 1) |-> Look(Eff(base, StylesOf(s.cont[c], SubSeq(names, 1, i - 1))))]
No(s) == [ok |-> FALSE, s |-> s, ret |-> Unset]
Yes(s, r) == [ok |-> TRUE, s |-> s, ret |-> r]
ApplyOp(s, op) ==
  CASE op.op = "new" -> Yes([s EXCEPT !.cont = Append(@, s.cont[op.c])], Unset)
    [] op.op = "obj" -> Yes([s EXCEPT !.objs = Append(@, op.rec)], Unset)
    [] op.op = "mut" -> Yes([s EXCEPT !.objs[op.o] = [@ EXCEPT ![op.attr] = op.val]], Unset)
    [] op.op = "wrong" -> No(s)      \* a value no attribute can have, something that is no style or no name
    [] op.op = "set" ->
         IF op.base # "default" /\ ~Has(s, op.c, op.base) THEN No(s)
         ELSE LET v == IF op.base = "default" THEN s.objs[op.o] ELSE Compose(s.cont[op.c][op.base], s.objs[op.o])
              IN Yes([s EXCEPT !.cont[op.c] = Put1(@, op.name, v)], v)
    [] op.op = "update" ->
         IF ~Has(s, op.c, op.name) THEN No(s)
         ELSE LET v == Compose(s.cont[op.c][op.name], s.objs[op.o])
              IN Yes([s EXCEPT !.cont[op.c] = Put1(@, op.name, v), !.objs = Append(@, v)], v)
    [] op.op = "get" ->
         IF ~Has(s, op.c, op.name) THEN No(s)
         ELSE LET v == IF op.full THEN Full(s, op.c, op.name) ELSE s.cont[op.c][op.name]
              IN Yes([s EXCEPT !.objs = Append(@, v)], v)
    [] op.op = "getobj" -> \* an object completed from the default style
         LET v == Compose(s.cont[op.c]["default"], s.objs[op.o])
         IN Yes([s EXCEPT !.objs = Append(@, v)], v)
    [] op.op = "text" ->
         IF (op.o = 0 /\ ~Has(s, op.c, op.name)) \/ Undefined(s.cont[op.c], {op.names[i] : i \in 1..Len(op.names)}) THEN No(s)
         ELSE LET base == IF op.o = 0 THEN Full(s, op.c, op.name) ELSE Compose(s.cont[op.c]["default"], s.objs[op.o])
              IN Yes([s EXCEPT !.texts = Append(@, LooksOf(s, op.c, base, op.names))], Unset)
=============================================================================

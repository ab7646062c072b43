------------------------------ MODULE Selector ------------------------------
(* The fragment selector language.  A selector value is either absent, an integer, or a text, given  *)
(* here as a sequence of characters.  Its meaning is a finite set of fragments and optionally an     *)
(* open end; Includes says which fragments it shows.                                                 *)
EXTENDS Integers, Sequences, FiniteSets

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitSet == {Digits[i] : i \in 1..10}
IsDigit(c) == c \in DigitSet
DigitVal(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
IsNumber(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
RECURSIVE NumVal(_)
NumVal(s) == IF s = <<>> THEN 0 ELSE 10 * NumVal(SubSeq(s, 1, Len(s) - 1)) + DigitVal(s[Len(s)])

Blank(c) == c \in {" ", "\t", "\n", "\r"}
RECURSIVE Strip(_)
Strip(s) == IF s = <<>> THEN s
            ELSE IF Blank(s[1]) THEN Strip(Tail(s))
            ELSE IF Blank(s[Len(s)]) THEN Strip(SubSeq(s, 1, Len(s) - 1))
            ELSE s
RECURSIVE Split(_, _)
Split(s, c) == \* non-empty sequence of the parts between the occurrences of c
  IF \E i \in 1..Len(s) : s[i] = c
  THEN LET i == CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c
       IN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), c)
  ELSE <<s>>

NEXT == <<"n", "e", "x", "t">>
LAST == <<"l", "a", "s", "t">>
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

\* One part -> [ok, from, to, open]
PartOf(p0, max) ==
  LET p == Strip(p0)
      nd == IF \A i \in 1..Len(p) : IsDigit(p[i]) THEN Len(p)
            ELSE (CHOOSE i \in 1..Len(p) : ~IsDigit(p[i]) /\ \A j \in 1..(i - 1) : IsDigit(p[j])) - 1
      hl == IF StartsWith(p, NEXT) \/ StartsWith(p, LAST) THEN 4 ELSE nd
      from == IF StartsWith(p, NEXT) THEN max + 1
              ELSE IF StartsWith(p, LAST) THEN max
              ELSE NumVal(SubSeq(p, 1, nd))
      rest == SubSeq(p, hl + 1, Len(p))
      bad == [ok |-> FALSE, from |-> 0, to |-> 0, open |-> FALSE]
  IN IF hl = 0 THEN bad
     ELSE IF rest = <<>> THEN [ok |-> TRUE, from |-> from, to |-> from, open |-> FALSE]
     ELSE IF rest = <<"+">> THEN [ok |-> TRUE, from |-> from, to |-> from, open |-> TRUE]
     ELSE IF rest[1] = "-" /\ IsNumber(Tail(rest)) /\ NumVal(Tail(rest)) >= from
          THEN [ok |-> TRUE, from |-> from, to |-> NumVal(Tail(rest)), open |-> FALSE]
     ELSE bad

NoOpen == -1
BadSel == [ok |-> FALSE, steps |-> {}, open |-> NoOpen]

\* v.t in {"none", "int", "str", "bad"}
SelOf(v, max) ==
  CASE v.t = "none" -> [ok |-> TRUE, steps |-> {}, open |-> 1]
    [] v.t = "int"  -> [ok |-> TRUE, steps |-> {v.n}, open |-> NoOpen]
    [] v.t = "str"  ->
        LET parts == Split(v.s, ",")
            ps == [i \in 1..Len(parts) |-> PartOf(parts[i], max)]
            opens == {i \in 1..Len(ps) : ps[i].open}
        IN IF (\E i \in 1..Len(ps) : ~ps[i].ok) \/ Cardinality(opens) > 1 THEN BadSel
           ELSE [ok |-> TRUE,
                 steps |-> UNION {ps[i].from..ps[i].to : i \in (1..Len(ps)) \ opens},
                 open |-> IF opens = {} THEN NoOpen ELSE ps[CHOOSE i \in opens : TRUE].from]
    [] OTHER -> BadSel

Includes(sel, f) == f \in sel.steps \/ (sel.open # NoOpen /\ f >= sel.open)
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
\* the largest fragment number a selector names, at least 1
Named(sel) == SetMax({1} \cup sel.steps \cup (IF sel.open # NoOpen THEN {sel.open} ELSE {}))
=============================================================================

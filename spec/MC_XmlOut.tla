----------------------------- MODULE MC_XmlOut -----------------------------
(* Documents written step by step with arbitrary values: they read back as what was written.               *)
EXTENDS XmlOut, Json, TLC
CONSTANTS N, L, EMIT        \* steps, length of values
Chars == {97, LT, GT, AMP, APOS, QUOT, BLANK, SEMI, RB, 233}
Values == UNION {[1..n -> Chars] : n \in 1..L}
A == <<97>>
G == <<103>>
VARIABLES out, want, open, ops, fresh
vars == <<out, want, open, ops, fresh>>
Init == out = <<LT, 103, GT>> /\ want = << <<"o", G, <<>>>> >> /\ open = 1 /\ ops = <<>> /\ fresh = FALSE
Log(k, v) == ops' = Append(ops, [k |-> k, v |-> v])
\* two texts in a row are one
AddText(w, v) == IF Last(w)[1] = "t" THEN Append(Front(w), <<"t", Last(w)[2] \o Blanks(v)>>) ELSE Append(w, <<"t", Blanks(v)>>)
Text(v) == out' = out \o EscText(v) /\ want' = AddText(want, v) /\ Log("text", v) /\ UNCHANGED <<open, fresh>>
Elem(v) == /\ out' = out \o <<LT, 103, BLANK, 97, EQ, APOS>> \o EscAttr(v) \o <<APOS, GT>>
           /\ want' = Append(want, <<"o", G, << <<A, v>> >>>>) /\ open' = open + 1 /\ Log("attr", v) /\ UNCHANGED fresh
Close == /\ open > 1
         /\ out' = out \o <<LT, SLASH, 103, GT>> /\ want' = Append(want, <<"c", G>>) /\ open' = open - 1 /\ Log("close", <<>>) /\ UNCHANGED fresh
Next == Len(ops) < N /\ (Close \/ \E v \in Values : Text(v) \/ Elem(v))
Spec == Init /\ [][Next]_vars
Ended == out \o FlattenSeq([i \in 1..open |-> <<LT, SLASH, 103, GT>>])
WantEnd == want \o [i \in 1..open |-> <<"c", G>>]
\* reading gives back exactly the steps
RoundTrip == Read(Ended) = [bad |-> FALSE, ev |-> WantEnd]
\* an unfinished document is none
Unfinished == Read(out).bad
\* the markers of a document stand for its values
MarkOps == LET vs == [i \in 1..Len(ops) |-> ops[i].v] IN
  \A i \in 1..Len(ops) : ops[i].v # <<>> => Subst([l \in 1..Len(ops[i].v) |-> MARK + i], vs) = ops[i].v
Emit == (EMIT /\ Len(ops) > 0 /\ ops[Len(ops)].v # <<>>) => PrintT("PROG" \o ToJson([ops |-> ops]))
=============================================================================

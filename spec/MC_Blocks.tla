----------------------------- MODULE MC_Blocks -----------------------------
(* Every way to put up to N nested blocks around parts of given texts                                  *)
EXTENDS Text, Json, IOUtils
CONSTANTS N, EMIT
TEXTS == JsonDeserialize(IOEnv.TEXTS)   \* sequence of sequences of characters
NAMES == JsonDeserialize(IOEnv.NAMES)
VARIABLES t, q, k
vars == <<t, q, k>>
\* q: the marked text: characters, or "B" \o name, "E"
C(c) == [k |-> "c", v |-> c]
Init == t \in 1..Len(TEXTS) /\ q = [i \in 1..Len(TEXTS[t]) |-> C(TEXTS[t][i])] /\ k = 0
Balanced(s) == /\ \A i \in 1..Len(s) : Cardinality({j \in 1..i : s[j].k = "e"}) <= Cardinality({j \in 1..i : s[j].k = "b"})
               /\ Cardinality({j \in 1..Len(s) : s[j].k = "e"}) = Cardinality({j \in 1..Len(s) : s[j].k = "b"})
Next == /\ k < N /\ k' = k + 1 /\ UNCHANGED t
        /\ \E i \in 1..(Len(q) + 1), j \in 0..Len(q), n \in 1..Len(NAMES) :
             /\ i <= j + 1 /\ Balanced(SubSeq(q, i, j))
             /\ q' = SubSeq(q, 1, i - 1) \o <<[k |-> "b", v |-> NAMES[n]]>> \o SubSeq(q, i, j) \o <<[k |-> "e", v |-> ""]>>
                     \o SubSeq(q, j + 1, Len(q))
Spec == Init /\ [][Next]_vars
M == [e |-> "~", b |-> "{", c |-> "}"]
Chs(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Marked == FoldLeft(LAMBDA a, x : a \o (CASE x.k = "b" -> <<"~">> \o Chs(x.v) \o <<"{">>
                                         [] x.k = "e" -> <<"}">>
                                         [] x.v = "~" -> <<"~", "~">>
                                         [] OTHER -> <<x.v>>), <<>>, q)
\* marking keeps the text, as long as the text has no closing bracket
Kept == LET r == ReadAll(Marked, M)
        IN Complete(r) /\ [i \in 1..Len(Chars(r.out)) |-> Chars(r.out)[i].c] = TEXTS[t]
Emit == EMIT => PrintT("PROG" \o ToJson([t |-> t, in |-> Marked]))
=============================================================================

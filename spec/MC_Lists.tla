------------------------------ MODULE MC_Lists ------------------------------
(* All histories of up to N calls on lists, from a small set of arguments.                               *)
EXTENDS Lists, Json
CONSTANTS N, EMIT
VARIABLES s, hist
vars == <<s, hist>>
Init == s = S0 /\ hist = <<>>
LABS == {Free, [t |-> "fn", s |-> "F"], [t |-> "str", s |-> "*"]}
SHOWS == {NoShow, [t |-> "str", s |-> <<"n", "e", "x", "t", "+">>]}
Do(op) == s' = Apply(s, op) /\ hist' = Append(hist, op)
Next == /\ Len(hist) < N
        /\ \/ \E o \in BOOLEAN, n \in {1, 3}, l \in {Free, [t |-> "fn", s |-> "T"]} :
                /\ Len(s.lists) < 2 /\ (~o => n = 1)
                /\ Do([op |-> "new", box |-> Len(s.holders), ordered |-> o, start |-> n, label |-> l, show |-> NoShow, z |-> NoZ, pad |-> -1, ind |-> -1, bad |-> ""])
           \/ \E i \in 1..Len(s.lists), o \in BOOLEAN, v \in {<<>>, <<1, 3>>}, l \in {Free, [t |-> "fn", s |-> "S"]}, w \in SHOWS :
                /\ (~o => v = <<>>)
                /\ Do([op |-> "sub", list |-> i, ordered |-> o, start |-> IF o /\ v # <<>> THEN 5 ELSE 1, over |-> v # <<>>, level |-> v,
                       label |-> l, show |-> w, z |-> NoZ, pad |-> -1, ind |-> -1, bad |-> ""])
           \/ \E i \in 1..Len(s.lists), l \in LABS, w \in SHOWS :
                Do([op |-> "item", list |-> i, label |-> l, show |-> w, z |-> NoZ, pad |-> -1, ind |-> -1, bad |-> ""])
           \/ \E i \in 1..Len(s.lists), b \in {"show", "label"} :
                Do([op |-> "item", list |-> i, label |-> Free, show |-> NoShow, z |-> NoZ, pad |-> -1, ind |-> -1, bad |-> b])
Spec == Init /\ [][Next]_vars

\* counters: those of the enclosing lists are fixed when a sublist is made, and the last one only grows, by items of this list
Fixed == [][\A i \in 1..Len(s.lists) : /\ Front(s'.lists[i].level) = Front(s.lists[i].level)
                                       /\ Last(s'.lists[i].level) \in {Last(s.lists[i].level), Last(s.lists[i].level) + 1}]_vars
ItemsOf(i) == Len(SelectSeq(hist, LAMBDA op : op.op = "item" /\ op.bad = "" /\ op.list = i))
Maker(i) == LET m == {k \in 1..Len(hist) : hist[k].op \in {"new", "sub"} /\ hist[k].bad = ""} IN hist[CHOOSE k \in m : Cardinality({j \in m : j <= k}) = i]
Counted == \A i \in 1..Len(s.lists) : Last(s.lists[i].level) = Maker(i).start - 1 + ItemsOf(i)
\* two items of one list are labelled apart unless they have a label of their own
Text(f) == Page(s, f)
Labelled == \A f \in 1..s.max : \A i \in 1..s.items : LET x == "i" \o ToString(i) IN
              Len(SelectSeq(Text(f), LAMBDA y : y = x)) <= 1
AllSeen == \A i \in 1..s.items : \E f \in 1..s.max : \E k \in 2..Len(Text(f)) : Text(f)[k] = "i" \o ToString(i)
\* what is shown stays shown: nothing here has an end
IsSubSeqOf(p, q) == \A i \in 1..Len(p) : Len(SelectSeq(p, LAMBDA x : x = p[i])) <= Len(SelectSeq(q, LAMBDA x : x = p[i]))
Grows == \A f \in 1..(s.max - 1) : IsSubSeqOf(Text(f), Text(f + 1))
Emit == EMIT /\ Len(hist) = N => PrintT("PROG" \o ToJson(hist))
=============================================================================

------------------------------ MODULE MC_Image ------------------------------
(* All small labelled trees, with all ways to use them, up to N nodes.                                  *)
EXTENDS Image, Json, TLC
CONSTANTS N, EMIT
VARIABLES tree, use, box, ready
vars == <<tree, use, box, ready>>
Lab(s) == [has |-> TRUE, lab |-> s]
LABS == {[has |-> FALSE, lab |-> <<>>], Lab(<<"a">>), Lab(<<"a", "*", "*", "1">>), Lab(<<"*", "*", "2", "+">>),
         Lab(<<"b", "*", "*", "1", ",", "3">>), Lab(<<"*", "2", "*", "*", "2", "-", "3", "*", "*", "x">>)}
USES == {[begin |-> b, mode |-> m, list |-> <<>>] : b \in {1, 2, 3}, m \in {"frags", "all"}}
        \cup {[begin |-> b, mode |-> "select", list |-> l] : b \in {1, 2}, l \in {<<2>>, <<3, 0, 1>>, <<0, 2>>, <<>>}}
BOXES == {[t |-> "none"], [t |-> "str", s |-> <<"2", "+">>], [t |-> "int", n |-> 1], [t |-> "str", s |-> <<"n", "e", "x", "t">>]}
Init == tree = <<>> /\ ready = FALSE /\ use = [begin |-> 1, mode |-> "frags", list |-> <<>>] /\ box = [t |-> "none"]
RECURSIVE Up(_, _)
Up(t, i) == IF i = 0 THEN {0} ELSE {i} \cup Up(t, t[i].p)
Next == /\ ~ready
        /\ \/ /\ Len(tree) < N
              /\ \E p \in Up(tree, Len(tree)), l \in LABS : tree' = Append(tree, [p |-> p, has |-> l.has, lab |-> l.lab])
              /\ UNCHANGED <<use, box, ready>>
           \/ /\ tree # <<>> /\ ready' = TRUE /\ UNCHANGED tree
              /\ \E u \in USES, b \in BOXES : use' = u /\ box' = b
Spec == Init /\ [][Next]_vars
St == AddImage(AddBox(Slide0, 1, box), <<tree>>, 2, 1, use)
In(q, i) == \E j \in 1..Len(q) : q[j] = i
Seen(f) == ImageIn(St, <<tree>>, 1, f)
\* an element is never shown without the elements around it
Nested == ready => \A f \in 1..(St.max + 1) : \A i \in 1..Len(tree) :
            In(Seen(f), i) /\ tree[i].p # 0 => In(Seen(f), tree[i].p)
NotBefore == ready => \A f \in 1..(use.begin - 1) : Seen(f) = NOTHING
\* the slide has enough fragments for everything that the image shows at all
Enough == ready /\ use.mode = "frags" /\ box.t = "none" =>
            \A i \in 1..Len(tree) : (\E k \in 1..9 : InFragment(tree, i, k)) => \E f \in 1..St.max : In(Seen(f), i)
\* nothing but the box and the annotations hides an element
Ignored == ready /\ use.mode = "all" => \A f \in use.begin..St.max : Includes(St.boxes[2].sel, f) => Seen(f) = Nodes(tree)
Shifted == ready /\ box.t = "none" => \A f \in use.begin..St.max : Seen(f) = Pick(tree, [use EXCEPT !.begin = 1], f - use.begin + 1)
Identity == ready => \A f \in 1..4 : Pick(tree, [begin |-> 1, mode |-> "select", list |-> <<1, 2, 3, 4>>], f)
                                     = Pick(tree, [begin |-> 1, mode |-> "frags", list |-> <<>>], f)
Emit == EMIT /\ ready => PrintT("PROG" \o ToJson([tree |-> tree, use |-> use, box |-> box]))
=============================================================================

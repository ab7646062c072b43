------------------------------ MODULE MC_Paths ------------------------------
(* All paths of up to N commands after the first one, with single and repeated arguments.                *)
EXTENDS Shapes, Json, TLC
CONSTANTS N, EMIT
VARIABLES cmds
SPOTS == << <<10000, 10000>>, <<95000, 22500>>, <<60000, 90000>>, <<15000, 55500>>, <<80000, 5000>>, <<110000, 75000>>, <<35000, 30000>>, <<5000, 95000>>,
            <<70000, 48000>>, <<22000, 12000>>, <<100000, 60000>>, <<44000, 81000>>, <<118000, 18000>>, <<28000, 66000>>, <<63000, 33000>>, <<90000, 99000>>,
            <<12000, 40000>>, <<77000, 71000>>, <<50000, 8000>>, <<105000, 44000>>, <<33000, 92000>>, <<84000, 29000>>, <<19000, 79000>>, <<57000, 58000>> >>
Used == FoldLeft(LAMBDA a, c : a + Len(c.a), 0, cmds)
Args(n) == [j \in 1..n |-> SPOTS[((Used + j - 1) % Len(SPOTS)) + 1]]
Init == cmds = <<[n |-> "M", a |-> <<SPOTS[1]>>]>>
Next == Len(cmds) <= N /\ \E n \in {"M", "L", "C", "S", "Q", "T"}, r \in 1..2 : cmds' = Append(cmds, [n |-> n, a |-> Args(r * NArgs(n))])
Spec == Init /\ [][Next]_cmds
P == PathOf(cmds)
Segs == FlattenSeq([i \in 1..Len(P) |-> P[i].segs])
\* one segment per command that is not a move; it ends where the command says
Drawn == LET s == SelectSeq(Single(cmds), LAMBDA c : c.n # "M") IN Len(Segs) = Len(s) /\ \A i \in 1..Len(s) : Last2(Segs[i]) = Last2(s[i].a)
\* repeated arguments are as repeated commands
Repeats == PathOf(Single(cmds)) = P
Kinds == \A i \in 1..Len(P) : \A j \in 1..Len(P[i].segs) : Len(P[i].segs[j]) \in {1, 3}
\* smooth where the commands say so: the first control point of S after C or S mirrors the one before
Smooth == LET s == Single(cmds) IN \A i \in 2..Len(s) : s[i].n = "S" /\ s[i - 1].n \in {"C", "S"} =>
            LET k == Cardinality({j \in 1..i : s[j].n # "M"}) IN Mirror(Segs[k - 1][2], Segs[k - 1][3]) = Segs[k][1]
Straight == LET s == Single(cmds) IN \A i \in 2..Len(s) : s[i].n = "S" /\ s[i - 1].n \notin {"C", "S"} =>
              LET k == Cardinality({j \in 1..i : s[j].n # "M"}) IN Segs[k][1] = Last2(s[i - 1].a)
Emit == EMIT /\ Len(cmds) > 1 => PrintT("PROG" \o ToJson(cmds))
=============================================================================

----------------------------- MODULE MC_TextBox -----------------------------
(* Short texts drawn piece by piece; the frames of lines and ranges tile the text.                      *)
EXTENDS TextBox, Json
CONSTANTS N, EMIT
D0 == [font |-> "sans-serif", size |-> 16000, color |-> "black", opacity |-> "", bold |-> "", italic |-> "", variant |-> "",
       align |-> "left", spacing |-> 1500, prio |-> 0]
U == [D0 EXCEPT !.font = "", !.size = -1, !.color = "", !.align = "", !.spacing = -1]
STY == "a" :> [U EXCEPT !.size = 32000] @@ "b" :> [U EXCEPT !.bold = "T", !.prio = 1]
M == [e |-> "~", b |-> "{", c |-> "}"]
PIECES == <<<<"x">>, <<"\n">>, <<"~", "a", "{">>, <<"~", "b", "{">>, <<"}">>>>
VARIABLES in, r, n
vars == <<in, r, n>>
Init == in = <<>> /\ r = R0 /\ n = 0
Next == /\ n < N /\ n' = n + 1
        /\ \E p \in 1..Len(PIECES) : (p = 5 => r.stack # <<>>) /\ in' = in \o PIECES[p]
              /\ r' = FoldLeft(LAMBDA s, c : Read(s, c, M), r, PIECES[p])
Spec == Init /\ [][Next]_vars
RECT == [x |-> 7000, y |-> 9000, w |-> 300000, h |-> 200000]
Me == Measure(D0, STY, r)
Ready == Complete(r) /\ Shown(r) # <<>>
Tile == Ready => \A s \in {5000, 10000, 20000} : \A i \in 0..(Me.n - 2) :
          LET a == LineBox(RECT, Me, s, i, 1) b == LineBox(RECT, Me, s, i + 1, 1) IN a.y + a.h = b.y /\ a.x = RECT.x /\ a.w = RECT.w
Ranges == Ready => \A nm \in {"a", "b"}, k \in 1..3, al \in {"left", "middle", "right"} :
            LET p == Block(r, nm, k) IN p # 0 /\ LineOf(r, p) < Me.n =>
              LET g == RangeBox(RECT, Me, ONE, D0, STY, r, p, al)
                  ln == LineOf(r, p)
                  lb == LineBox(RECT, Me, ONE, ln, 1)
                  left == AnchorX(RECT, al) - (CASE al = "left" -> 0 [] al = "middle" -> Me.ws[ln + 1] \div 2 [] OTHER -> Me.ws[ln + 1])
              IN g.y = lb.y /\ g.h = lb.h /\ g.x >= left - 1 /\ g.x + g.w <= left + Me.ws[ln + 1] + 1
Emit == EMIT /\ Ready => PrintT("PROG" \o ToJson([in |-> in, n |-> Me.n]))
=============================================================================

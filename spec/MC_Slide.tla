------------------------------ MODULE MC_Slide ------------------------------
(* Exhaustive exploration of small building histories.  Invariants are independent formulations of    *)
(* the slide properties; every history of full length is printed, to be replayed on the real code.   *)
EXTENDS Slide, Json, IOUtils, FiniteSetsExt

CONSTANTS DEPTH, PROFILE
W == 400000
H == 300000
VARIABLES st, hist

S(str) == Str(str)
NoP == <<-1, -1, -1, -1, -1, -1, -1>>
B(par) == [op |-> "box", par |-> par, via |-> "box", sel |-> None, x |-> None, y |-> None, w |-> None,
           h |-> None, p |-> NoP, hor |-> FALSE, zset |-> FALSE, z |-> 0, prep |-> FALSE, ab |-> 0, be |-> 0]
I(b) == [op |-> "item", box |-> b, kind |-> "rect", pts |-> <<>>, cw |-> 0, ch |-> 0, size |-> 0,
         steps |-> 0, begin |-> 1, end |-> 0]
BoxIds == 1..Len(st.boxes)
SeqSetOf(q) == {q[i] : i \in 1..Len(q)}

Sels == {None, [t |-> "int", n |-> 2], S(<<"n", "e", "x", "t", "+">>), S(<<"l", "a", "s", "t">>),
         S(<<"1", "-", "2">>), S(<<"2", ",", "3", "+">>), S(<<"2", "-", "1">>)}
ShowOps == {[B(p) EXCEPT !.sel = s] : p \in BoxIds, s \in Sels} \cup {I(b) : b \in BoxIds}

ZOps == UNION {{[B(p) EXCEPT !.zset = z # 9, !.z = z, !.prep = pr] : z \in {-1, 0, 1, 9}, pr \in BOOLEAN}
               : p \in BoxIds}
        \cup UNION {{[B(p) EXCEPT !.ab = r] : r \in SeqSetOf(st.kids[p])} : p \in BoxIds}
        \cup UNION {{[B(p) EXCEPT !.be = r] : r \in SeqSetOf(st.kids[p])} : p \in BoxIds}
        \cup {I(b) : b \in BoxIds}

SizeVals == {None, Num(40000), S(<<"5", "0", "%">>), S(FILL), S(FILL \o <<"(", "2", ")">>)}
PosVals == {None, Num(30000), S(<<"2", "5", "%">>), S(<<"[", "1", "0", "0", "%", "]">>)}
LayoutOps == {o \in UNION {{[B(p) EXCEPT !.w = w, !.h = h, !.hor = hor, !.prep = pr] :
                             w \in SizeVals, h \in SizeVals, hor \in BOOLEAN, pr \in BOOLEAN} : p \in BoxIds} :
                o.prep => (o.w = None /\ ~o.hor)}
             \cup UNION {{[B(p) EXCEPT !.x = x, !.y = y, !.w = Num(50000), !.h = Num(20000)] :
                             x \in PosVals, y \in PosVals} : p \in BoxIds}
PadOps == UNION {{[B(p) EXCEPT !.p = q, !.hor = hor, !.w = w] :
             q \in {NoP, <<7000, -1, -1, -1, -1, -1, 3000>>, <<-1, 5000, 0, -1, 2000, 9000, 4000>>},
             hor \in BOOLEAN, w \in {None, Num(60000)}} : p \in BoxIds}
          \cup {[B(p) EXCEPT !.via = v] : p \in BoxIds, v \in {"fbox", "sbox", "overlay"}}

Calls == {
         "text-escape", "text-noescape", "text-style", "text-style-value", "text-inline-style", "text-open",
         "text-none", "code-language", "code-style", "code-escape", "code-inline-style", "line-one",
         "line-none", "line-triple", "line-word", "line-number", "polygon-single", "polygon-word",
         "path-command", "path-count", "path-text", "image-extension", "image-missing", "image-missing-svg",
         "image-missing-ora", "image-type", "image-notype", "image-broken", "image-broken-file", "image-svg-bytes",
         "image-svg-broken", "image-svg-select", "image-svg-begin", "image-svg-begin2", "image-ora-mime", "image-ora-broken",
         "image-ora-select", "image-ora-begin"}
RejectOps == {[op |-> "reject", box |-> b, call |-> c] : b \in BoxIds, c \in Calls}
             \cup {B(p) : p \in BoxIds} \cup {[B(1) EXCEPT !.sel = S(<<"n", "e", "x", "t", "+">>)]} \cup {[B(1) EXCEPT !.w = Num(50000)]}
             \cup {I(b) : b \in BoxIds}

Ops == CASE PROFILE = "show" -> ShowOps
         [] PROFILE = "z" -> ZOps
         [] PROFILE = "layout" -> LayoutOps
         [] PROFILE = "pad" -> PadOps
         [] PROFILE = "reject" -> RejectOps

Init == st = Init0(W, H) /\ hist = <<>>
Next == /\ Len(hist) < DEPTH
        /\ \E op \in Ops : st' = Apply(st, op).s /\ hist' = Append(hist, op)
vars == <<st, hist>>
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
N == Len(st.boxes)
R == Rects(st, W, H)
ND == Needs(st)
RECURSIVE Ancestors(_)
Ancestors(b) == IF b = 0 THEN {} ELSE {b} \cup Ancestors(st.boxes[b].par)

\* S01: painted exactly in the fragments that all boxes around include
Inv_S01 == \A f \in 1..(st.max + 1) : \A i \in 1..Len(st.items) :
             (i \in {Painted(st, f)[j] : j \in 1..Len(Painted(st, f))})
             <=> (\A b \in Ancestors(st.items[i].box) : Includes(st.boxes[b].sel, f))
\* S02: the fragment count is the largest named one
Inv_S02 == st.max = SetMax({Named(st.boxes[b].sel) : b \in BoxIds})
\* S03: a rejected call changes nothing (as every accepted one adds a box)
Act_S03 == [][LET op == hist'[Len(hist')]
              IN IF Apply(st, op).ok THEN Len(st'.boxes) + Len(st'.items) = Len(st.boxes) + Len(st.items) + 1
                 ELSE st' = st]_vars
\* S04: nor does a rejected drawing call: the slide is the one of the accepted calls alone
Inv_S04 == st = FoldLeft(LAMBDA s, op : Apply(s, op).s, Init0(W, H), SelectSeq(hist, LAMBDA op : op.op # "reject"))
\* L01: managed children in order, without gaps, in the middle
Outer(b) == LET r == R[b] p == st.boxes[b].pad
            IN [x |-> r.x - p.l, y |-> r.y - p.t, w |-> r.w + p.l + p.r, h |-> r.h + p.t + p.b]
Lo(b, hor) == IF hor THEN Outer(b).x ELSE Outer(b).y
Sz(b, hor) == IF hor THEN Outer(b).w ELSE Outer(b).h
ILo(b, hor) == IF hor THEN R[b].x ELSE R[b].y
ISz(b, hor) == IF hor THEN R[b].w ELSE R[b].h
Near(a, b) == a - b \in -8..8
Inv_L01 == \A b \in BoxIds :
  LET mk == ManagedKids(st, b)
      h == st.boxes[b].hor
  IN mk # <<>> =>
     /\ \A j \in 1..(Len(mk) - 1) : Near(Lo(mk[j + 1], h), Lo(mk[j], h) + Sz(mk[j], h))
     /\ LET before == Lo(mk[1], h) - ILo(b, h)
            after == ILo(b, h) + ISz(b, h) - Lo(mk[Len(mk)], h) - Sz(mk[Len(mk)], h)
        IN IF Fills(st, b) > 0 THEN Near(before, 0) /\ Near(after, 0) ELSE Near(before, after)
     /\ \A c \in {st.lkids[b][j] : j \in 1..Len(st.lkids[b])} :
          (IF h THEN st.boxes[c].y.k ELSE st.boxes[c].x.k) = "none" =>
             Near(2 * Lo(c, ~h) + Sz(c, ~h), 2 * ILo(b, ~h) + ISz(b, ~h))
\* L02: a box holds its managed content and its own minimum, unless it fills an overfull parent
Inv_L02 == \A b \in 2..N :
  /\ (st.boxes[b].w.k # "fill" => Outer(b).w >= ND[b].w)
  /\ (st.boxes[b].h.k # "fill" => Outer(b).h >= ND[b].h)
  /\ (st.boxes[b].w.k = "min" => Outer(b).w = ND[b].w)
  /\ \A hor \in BOOLEAN : (hor # st.boxes[st.boxes[b].par].hor /\ SizeV(st, b, hor).k = "fill")
        => Sz(b, hor) = ISz(st.boxes[b].par, hor)
\* L05: selectors, z-levels and paint order do not enter the layout
Plain(s) == [s EXCEPT !.boxes = [b \in 1..Len(s.boxes) |-> [s.boxes[b] EXCEPT !.sel = SelOf(None, 1), !.z = 0]],
                      !.kids = [b \in 1..Len(s.boxes) |-> <<>>], !.max = 1]
Inv_L05 == Rects(Plain(st), W, H) = R
\* Z01: ascending z, depth-first order within one z
Inv_Z01 == LET p == Painted(st, 1)
               d == Dfs(st, 1)
               Z(i) == st.boxes[st.items[i].box].z
           IN \A a, b \in 1..Len(p) : a < b =>
                \/ Z(p[a]) < Z(p[b])
                \/ Z(p[a]) = Z(p[b]) /\ Pos(d, p[a]) < Pos(d, p[b])
\* X01: the debug mode adds one frame per visible box, in front of the boxes and items inside of it at its z-level; items are as without
Inv_X01 == \A f \in 1..(st.max + 1) :
  LET d == DebugOrder(st, f)
      Z(e) == st.boxes[IF e > 0 THEN e ELSE st.items[-e].box].z
      Home(e) == IF e > 0 THEN st.boxes[e].par ELSE st.items[-e].box
      items == SelectSeq(d, LAMBDA e : e < 0)
  IN /\ Len(items) = Len(Painted(st, f)) /\ \A j \in 1..Len(items) : items[j] = -Painted(st, f)[j]
     /\ {d[j] : j \in 1..Len(d)} \ {items[j] : j \in 1..Len(items)} = {b \in BoxIds : BoxShown(st, b, f)}
     /\ \A a, b \in 1..Len(d) : a < b => d[a] # d[b] /\ Z(d[a]) <= Z(d[b])
     /\ \A a, b \in 1..Len(d) : d[a] > 0 /\ Z(d[a]) = Z(d[b]) /\ d[b] # 1 /\ Home(d[b]) # 0 /\ d[a] \in Ancestors(Home(d[b])) => b < a

Emit == Len(hist) = DEPTH => PrintT("PROG" \o ToJson(hist))
=============================================================================

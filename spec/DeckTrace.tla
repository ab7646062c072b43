------------------------------ MODULE DeckTrace ------------------------------
(* Validates recorded deck histories, renders included, against Deck.                                *)
EXTENDS Deck, Json, IOUtils
T == JsonDeserialize(IOEnv.TRACES)
TOL == 5
VARIABLES tr, k, d, bad, seen, dbg, done
vars == <<tr, k, d, bad, seen, dbg, done>>

Init == /\ tr \in 1..Len(T) /\ k = 1 /\ d = NewDeck(T[tr].policy) /\ bad = {} /\ seen = <<>> /\ done = FALSE
        /\ dbg = {[no |-> x.no, f |-> x.f, ids |-> x.ids] : x \in Range(T[tr].left)}   \* files of an earlier deck

Near(x, y) == x - y \in -TOL..TOL
ApplyPost(dd, adds) == FoldLeft(LAMBDA acc, a : AddItem(acc, a.tok, a.id, a.frag), dd, adds)

CellOk(c, want, w, h) == /\ Near(c.x, want.x * w) /\ Near(c.y, want.y * h)
                         /\ Near(c.w, w) /\ Near(c.h, h)
OutBad(t, op, want) ==
  LET a == IF op.a = 0 THEN 1 ELSE op.a
      b == IF op.b = 0 THEN 1 ELSE op.b
      ids(o) == [i \in 1..Len(o.cells) |-> o.cells[i].ids]
      \* of a page seen as pixels only the colour of the slide is known
      shown(o, p) == [i \in 1..Len(p.cells) |-> IF o.part THEN <<p.cells[i].ids[1]>> ELSE p.cells[i].ids]
  IN IF Len(op.out) # Len(want) THEN {"count"}
     ELSE (IF \E i \in 1..Len(want) : ids(op.out[i]) # shown(op.out[i], want[i]) THEN {"content"} ELSE {})
          \cup (IF \E i \in 1..Len(want) : ~want[i].ext /\ Len(op.out[i].cells) = Len(want[i].cells) /\
                     \/ ~(Near(op.out[i].w, a * t.w) /\ Near(op.out[i].h, b * t.h))
                     \/ \E j \in 1..Len(want[i].cells) : ~CellOk(op.out[i].cells[j], want[i].cells[j], t.w, t.h)
                THEN {"cells"} ELSE {})

\* digests seen so far: the same arguments on the same deck state give the same digest
Key(op, dd) == <<op.sel, op.hassel, op.a, op.b, op.view, dd.slides>>
SeenBad(op, dd) == \E i \in 1..Len(seen) : seen[i].k = Key(op, dd) /\ seen[i].h # op.digest

StepRender(t, op) ==
  LET es0 == Selected(d, op)
      roots == SelectSeq(es0, LAMBDA e : ~e.ext)
      d1 == IF op.post THEN ApplyPost(d, op.adds) ELSE d
      es == Selected(d1, op)
      want == Output(PageSeq(es), op.a, op.b)
      files == IF t.debug THEN DebugFiles(dbg, PageSeq(es)) ELSE {}
      found == {[no |-> x.no, f |-> x.f, ids |-> x.ids] : x \in Range(op.dbg)}
  IN /\ d' = d1
     /\ dbg' = files
     /\ bad' = bad
         \cup (IF ~op.ok THEN {"error"} ELSE OutBad(t, op, want))
         \cup (IF op.post /\ op.calls # <<[i \in 1..Len(roots) |-> roots[i].tok]>> THEN {"post"} ELSE {})
         \cup (IF op.post /\ op.early THEN {"post"} ELSE {})
         \cup (IF op.ok /\ found # files THEN {"files"} ELSE {})
         \cup (IF op.ok /\ \E x \in Range(op.dbg) : ~x.same THEN {"same"} ELSE {})
         \cup (IF op.ok /\ SeenBad(op, d1) THEN {"repeat"} ELSE {})
         \cup (IF op.ok /\ op.twin # "" /\ op.twin # op.digest THEN {"twin"} ELSE {})
     /\ seen' = Append(seen, [k |-> Key(op, d1), h |-> op.digest])

Step ==
  /\ ~done /\ k <= Len(T[tr].ops)
  /\ LET t == T[tr]
         op == t.ops[k]
     IN CASE op.op = "new" ->
               LET a == NewSlide(d, op)
               IN d' = (IF op.ok = a.ok THEN a.d ELSE d) /\ seen' = seen /\ dbg' = dbg
                  /\ bad' = IF op.ok # a.ok THEN bad \cup {"accept"} ELSE bad
          [] op.op = "pdf" -> d' = AddPdf(d, op) /\ UNCHANGED <<bad, seen, dbg>>
          [] op.op = "item" -> d' = AddItem(d, op.tok, op.id, op.frag) /\ UNCHANGED <<seen, dbg>>
                               /\ bad' = IF op.ok THEN bad ELSE bad \cup {"error"}
          [] op.op = "get" -> UNCHANGED <<d, seen, dbg>>
                              /\ bad' = IF op.got # GetByName(d, op.name) THEN bad \cup {"get"} ELSE bad
          [] op.op = "fail" -> UNCHANGED <<d, seen, dbg>>
                               /\ bad' = bad \cup (IF op.ok THEN {"accept"} ELSE {}) \cup (IF op.post THEN {"post"} ELSE {})
                                             \cup (IF ~op.kept THEN {"output"} ELSE {}) \cup (IF ~op.cache THEN {"pruned"} ELSE {})
          [] op.op = "render" -> StepRender(t, op)
  /\ k' = IF "accept" \in bad' THEN Len(T[tr].ops) + 1 ELSE k + 1
  /\ UNCHANGED <<tr, done>>

Judge ==
  /\ ~done /\ k > Len(T[tr].ops)
  /\ LET b == bad \cup (IF T[tr].created # (T[tr].policy \in Policies) THEN {"policy"} ELSE {})
     IN PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(b), info |-> [slides |-> Len(d.slides), renders |-> Len(seen)]]))
  /\ done' = TRUE
  /\ UNCHANGED <<tr, k, d, bad, seen, dbg>>
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================

---------------------------- MODULE XmlOutTrace ----------------------------
(* Pages of the real code as characters.  T[tr]: [vals: <<[k: "text"|"attr", v]>>, err, merr: exceptions,  *)
(*   lx: an XML parser accepts the page, page: with the values, mark: the same page with markers].          *)
EXTENDS XmlOut, Json, IOUtils, TLC
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, done
vars == <<tr, done>>
Init == tr \in 1..Len(T) /\ done = FALSE
If(c, n) == IF c THEN {n} ELSE {}
Verdict(t) ==
  LET p == Read(t.page)
      m == Read(t.mark)
      vs == [i \in 1..Len(t.vals) |-> t.vals[i].v]
      same == /\ Len(p.ev) = Len(m.ev)
              /\ \A i \in 1..Len(m.ev) : SubstEvent(m.ev[i], vs) = PlainEvent(p.ev[i])
  IN If(t.err # "" \/ t.merr # "", "err")
     \cup IF t.err # "" \/ t.merr # "" THEN {}
          ELSE If(p.bad \/ m.bad \/ ~t.lx, "wellformed")
               \cup IF p.bad \/ m.bad THEN {}
                    ELSE If(\E i \in 1..Len(t.vals) : ~(IF t.vals[i].k = "text" THEN InText(i, vs, m.ev) ELSE InAttr(i, vs, m.ev)), "missing")
                         \cup If(~same, "changed")
Judge == /\ ~done
         /\ PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(Verdict(T[tr])), info |-> ""]))
         /\ done' = TRUE /\ UNCHANGED tr
Next == Judge
Spec == Init /\ [][Next]_vars
=============================================================================

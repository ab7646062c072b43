----------------------------- MODULE CacheTrace -----------------------------
EXTENDS Cache, Json, IOUtils
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, k, dir, decks, v, iv, bad, done
vars == <<tr, k, dir, decks, v, iv, bad, done>>
Init == tr \in 1..Len(T) /\ k = 1 /\ dir = EmptyDir /\ decks = <<>> /\ v = 0 /\ iv = 0 /\ bad = {} /\ done = FALSE

S(q) == {q[i] : i \in 1..Len(q)}
Files(e) == {<<e.files[i][1], e.files[i][2]>> : i \in 1..Len(e.files)}
If(c, n) == IF c THEN {n} ELSE {}
Again(q, forbidden) == \/ S(q) \cap forbidden # {}
                       \/ Cardinality(S(q)) # Len(q)

\* -> [dir, decks, v, iv, bad]
Ev(e) ==
  LET same == [dir |-> dir, decks |-> decks, v |-> v, iv |-> iv, bad |-> {}] IN
  CASE e.e = "start" -> [same EXCEPT !.v = e.v, !.iv = e.iv, !.decks = <<>>, !.dir.files = Files(e)]
    [] e.e = "deck" -> [same EXCEPT !.decks = @ \o [i \in 1..(IF e.d > Len(decks) THEN 1 ELSE 0) |-> NewDeck(dir, v, iv)],
                                    !.bad = If(~e.ok, "ok")]
    [] e.e = "build" ->
        LET d == decks[e.d]
            n == IF e.fault THEN {} ELSE S(e.needm)
            nt == IF e.fault THEN {} ELSE S(e.needtex)
            d2 == [Measured(d, S(e.m), n) EXCEPT !.uf = @ \cup S(e.conv),
                                                 !.known = (@ \cup S(e.conv)) \cap {f[1] : f \in Files(e)}]
        IN [same EXCEPT !.decks[e.d] = d2, !.dir.files = Files(e),
                        !.bad = If(~e.ok /\ ~e.fault, "ok") \cup If(~(MustM(d, n) \subseteq S(e.m)), "stale_m")
                                \cup If(Again(e.m, MayNotM(d)), "again_m")
                                \cup If(~(MustX(d, dir, v, nt) \subseteq S(e.tex)), "stale_x")
                                \cup If(Again(e.tex, MayNotX(d, dir, v)), "again_x")
                                \cup If(\E j \in 1..Len(e.badtex) : <<e.badtex[j], v>> \in Files(e) \ dir.files, "failed_entry")
                                \cup If(~e.fault /\ ~(\A q \in S(e.conv) \ d.uf : <<q, v>> \in Files(e)), "lost")
                                \cup If(~(dir.files \subseteq Files(e)), "removed")]
    [] e.e = "render" ->
        LET d == decks[e.d]
            n == IF e.fault THEN {} ELSE S(e.needm)
            nx == IF e.fault THEN {} ELSE S(e.needx)
            d2 == [Measured(d, S(e.m), n) EXCEPT !.known = (@ \cup S(e.x) \cup nx) \cap {f[1] : f \in Files(e)},
                                                 !.uf = @ \cup nx \cup S(e.x),
                                                 !.mlo = IF e.prune THEN (@ \cap d.used) \cup S(e.m) \cup n ELSE @ \cup S(e.m) \cup n]
            d0 == Measured(d, S(e.m), n)
            lo == StoredLo(d0, dir, iv, e.prune, e.save)
            hi == StoredHi(d0, dir, iv, e.prune, e.save)
            af == Files(e)
        IN [same EXCEPT !.decks[e.d] = d2,
              !.dir = [files |-> af, qlo |-> IF e.ok THEN lo ELSE lo \cap dir.qlo, qhi |-> IF e.ok THEN hi ELSE hi \cup dir.qhi],
              !.bad = If(~e.ok /\ ~e.fault, "ok") \cup If(e.ok /\ ~e.fault /\ ~e.same, "same")
                      \cup If(~e.fault /\ ~(MustM(d, n) \subseteq S(e.m)), "stale_m")
                      \cup If(Again(e.m, MayNotM(d)), "again_m")
                      \cup If(~e.fault /\ e.file /\ e.ok /\ ~(MustX(d, dir, v, nx) \subseteq S(e.x)), "stale_x")
                      \cup If(Again(e.x, MayNotX(d, dir, v)), "again_x")
                      \cup If(\E j \in 1..Len(e.badx) : <<e.badx[j], v>> \in af \ dir.files, "failed_entry")
                      \cup If((~e.prune \/ (~e.file)) /\ ~(dir.files \subseteq af), "removed")
                      \cup If(e.ok /\ e.prune /\ e.file /\ ~(\A q \in nx : <<q, v>> \in af), "lost")
                      \cup If(e.ok /\ e.prune /\ e.file /\ ~PrunedOk(d, dir.files, af, v, nx), "kept")]
    [] e.e = "crash" ->
        LET af == Files(e)
            d == IF e.d \in DOMAIN decks THEN decks[e.d] ELSE NewDeck(dir, v, iv)
            d0 == Measured(d, {}, S(e.needm))
        IN [same EXCEPT !.dir = [files |-> af,
                                 qlo |-> dir.qlo \cap {<<q, iv>> : q \in d0.used},
                                 qhi |-> dir.qhi \cup {<<q, iv>> : q \in d0.mhi}],
                        !.decks = <<>>, !.bad = If(~e.foreign, "foreign")]
    [] e.e = "exit" -> [same EXCEPT !.decks = <<>>, !.bad = If(~e.foreign, "foreign")]
    [] e.e = "died" -> [same EXCEPT !.bad = {"ok"}]
    [] e.e = "noref" -> [same EXCEPT !.bad = {"ref"}]

Step == /\ ~done /\ k <= Len(T[tr].ev)
        /\ LET r == Ev(T[tr].ev[k])
           IN /\ dir' = r.dir
              \* what was removed is not the concern of earlier decks if it returns
              /\ decks' = [i \in DOMAIN r.decks |-> [r.decks[i] EXCEPT !.at = @ \cap r.dir.files]] /\ v' = r.v /\ iv' = r.iv /\ bad' = bad \cup r.bad
              /\ k' = IF "ok" \notin r.bad THEN k + 1 ELSE Len(T[tr].ev) + 1
        /\ UNCHANGED <<tr, done>>
Judge == /\ ~done /\ k > Len(T[tr].ev)
         /\ PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(bad), info |-> [files |-> Cardinality(dir.files)]]))
         /\ done' = TRUE /\ UNCHANGED <<tr, k, dir, decks, v, iv, bad>>
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================

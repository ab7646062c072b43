---------------------------- MODULE StylesTrace ----------------------------
(* Histories of style operations on the real code, judged against Styles.                              *)
(* T[tr]: [init: styles, objs, ev: <<op with ok, ret, probe, held>>, texts: looks as drawn at the end]        *)
EXTENDS Styles, Json, IOUtils
T == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, k, s, bad, done
vars == <<tr, k, s, bad, done>>
Init == tr \in 1..Len(T) /\ k = 1 /\ s = [S0(T[tr].init) EXCEPT !.objs = T[tr].objs] /\ bad = {} /\ done = FALSE
If(c, n) == IF c THEN {n} ELSE {}
\* probe[c]: the styles of container c that get_style reports, for the names of interest; held: the objects of the caller
Probed(st, p) == \A c \in 1..Len(st.cont) : \A n \in DOMAIN p[c] :
                   IF p[c][n].is THEN n \in DOMAIN st.cont[c] /\ p[c][n].rec = st.cont[c][n] ELSE n \notin DOMAIN st.cont[c]
\* how the numeric variant is drawn is not a question of scopes (see T03)
NoVar(ts) == [i \in 1..Len(ts) |-> [j \in 1..Len(ts[i]) |-> [ts[i][j] EXCEPT !.variant = ""]]]
Step == /\ ~done /\ k <= Len(T[tr].ev)
        /\ LET e == T[tr].ev[k]
               r == ApplyOp(s, e)
           IN /\ bad' = bad \cup If(r.ok /\ ~e.ok, "rejected") \cup If(~r.ok /\ e.ok, "accepted")
                            \cup If(r.ok /\ e.ok /\ e.op \in {"set", "update", "get", "getobj"} /\ e.ret # r.ret, "value")
                            \cup If(r.ok = e.ok /\ ~Probed(r.s, e.probe), "scope")
                            \cup If(r.ok = e.ok /\ e.held # r.s.objs, "objects")
              /\ s' = r.s
              /\ k' = IF r.ok # e.ok THEN Len(T[tr].ev) + 1 ELSE k + 1
        /\ UNCHANGED <<tr, done>>
Judge == /\ ~done /\ k > Len(T[tr].ev)
         /\ LET b == bad \cup If(bad \cap {"rejected", "accepted"} = {} /\ NoVar(T[tr].texts) # NoVar(s.texts), "drawn")
            IN PrintT("VERDICT" \o ToJson([tr |-> tr, bad |-> SetToSeq(b), info |-> [n |-> Len(T[tr].ev), want |-> s.texts]]))
         /\ done' = TRUE /\ UNCHANGED <<tr, k, s, bad>>
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================

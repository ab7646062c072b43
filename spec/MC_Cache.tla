------------------------------ MODULE MC_Cache ------------------------------
(* The design of the cache, file operation by file operation: entries are written under another name  *)
(* and renamed, so a run may be stopped between any two operations.  Histories of runs are emitted    *)
(* for replay on the real code.                                                                       *)
EXTENDS Cache, Json
CONSTANTS RUNS, NC, NV, CRASH
VARIABLES dir, qs, tmp, p, hist
\* dir: entries [k, v, made, whole] (made: the version that produced the content); qs: [v, ks, whole]
\* tmp: leftovers of interrupted writes; p: the process
vars == <<dir, qs, tmp, p, hist>>
C == 1..NC
V == 1..NV
None == [on |-> FALSE, v |-> 0, c |-> <<>>, i |-> 0, pc |-> "idle", known |-> {}, mem |-> {}, used |-> {}, x |-> {}, m |-> {},
         prune |-> FALSE, save |-> FALSE, fail |-> 0, n |-> 0, d0 |-> {}, q0 |-> {}]
Init == dir = {} /\ qs = [v |-> 0, ks |-> {}, whole |-> TRUE] /\ tmp = {} /\ p = None /\ hist = <<>>

Progs == UNION {[1..n -> C] : n \in 1..2}
Inj(f) == \A i, j \in DOMAIN f : i # j => f[i] # f[j]
Start == /\ ~p.on /\ Len(hist) < RUNS
         /\ \E v \in V, c \in {f \in Progs : Inj(f)}, pr \in BOOLEAN, sv \in BOOLEAN, fl \in 0..1 :
              /\ (fl > 0 => Len(c) = 2)
              /\ p' = [None EXCEPT !.on = TRUE, !.v = v, !.c = c, !.i = 1, !.pc = "measure", !.prune = pr, !.save = sv, !.fail = fl,
                         !.known = {e.k : e \in {e \in dir : e.v = v}}, !.mem = IF qs.v = v THEN qs.ks ELSE {},
                         !.d0 = {e.k : e \in {e \in dir : e.v = v}}, !.q0 = IF qs.v = v THEN qs.ks ELSE {}]
              /\ hist' = Append(hist, [v |-> v, c |-> c, prune |-> pr, save |-> sv, fail |-> fl, end |-> "exit", n |-> 0])
         /\ UNCHANGED <<dir, qs, tmp>>
\* no file operation
Measure == /\ p.on /\ p.pc = "measure"
           /\ LET k == p.c[p.i]
                  p2 == [p EXCEPT !.mem = @ \cup {k}, !.used = @ \cup {k}, !.m = IF k \in p.mem THEN @ ELSE @ \cup {k}]
              IN p' = IF p.i < Len(p.c) THEN [p2 EXCEPT !.i = @ + 1]
                      ELSE [p2 EXCEPT !.i = 1, !.pc = IF p.save THEN "qtmp" ELSE "export", !.mem = IF p.prune THEN p2.used ELSE @]
           /\ UNCHANGED <<dir, qs, tmp, hist>>
Op(q) == [q EXCEPT !.n = @ + 1]
QTmp == p.on /\ p.pc = "qtmp" /\ p' = Op([p EXCEPT !.pc = "qren"]) /\ tmp' = tmp \cup {"q"} /\ UNCHANGED <<dir, qs, hist>>
QRen == p.on /\ p.pc = "qren" /\ p' = Op([p EXCEPT !.pc = "export"]) /\ tmp' = tmp \ {"q"}
        /\ qs' = [v |-> p.v, ks |-> p.mem, whole |-> TRUE] /\ UNCHANGED <<dir, hist>>
Next1 == IF p.i < Len(p.c) THEN [p EXCEPT !.i = @ + 1] ELSE [p EXCEPT !.pc = IF p.prune THEN "prune" ELSE "end"]
Skip == p.on /\ p.pc = "export" /\ p.c[p.i] \in p.known /\ p' = Next1 /\ UNCHANGED <<dir, qs, tmp, hist>>
XTmp == /\ p.on /\ p.pc = "export" /\ p.c[p.i] \notin p.known
        /\ IF p.fail = p.i THEN p' = [p EXCEPT !.pc = "failed"] /\ tmp' = tmp
           ELSE p' = Op([p EXCEPT !.pc = "xren", !.x = @ \cup {p.c[p.i]}]) /\ tmp' = tmp \cup {"x"}
        /\ UNCHANGED <<dir, qs, hist>>
XRen == /\ p.on /\ p.pc = "xren" /\ p' = Op([Next1 EXCEPT !.known = @ \cup {p.c[p.i]}, !.pc = IF p.i < Len(p.c) THEN "export" ELSE Next1.pc])
        /\ dir' = dir \cup {[k |-> p.c[p.i], v |-> p.v, made |-> p.v, whole |-> TRUE]} /\ tmp' = tmp \ {"x"} /\ UNCHANGED <<qs, hist>>
Unused == {e \in dir : e.v # p.v \/ \A i \in DOMAIN p.c : p.c[i] # e.k}
Prune == /\ p.on /\ p.pc = "prune"
         /\ IF Unused = {} THEN p' = [p EXCEPT !.pc = "end"] /\ dir' = dir
            ELSE \E e \in Unused : dir' = dir \ {e} /\ p' = Op(p)
         /\ UNCHANGED <<qs, tmp, hist>>
EndRun(e) == [hist EXCEPT ![Len(hist)] = [@ EXCEPT !.end = e, !.n = p.n]]
Finish == /\ p.on /\ p.pc \in {"end", "failed"} /\ p' = None /\ hist' = EndRun(IF p.pc = "end" THEN "exit" ELSE "fail")
          /\ UNCHANGED <<dir, qs, tmp>>
Crash == /\ CRASH /\ p.on /\ p.pc \in {"qtmp", "qren", "export", "xren", "prune"} /\ p' = None /\ hist' = EndRun("crash")
         /\ UNCHANGED <<dir, qs, tmp>>
Next == Start \/ Measure \/ QTmp \/ QRen \/ Skip \/ XTmp \/ XRen \/ Prune \/ Finish \/ Crash
Spec == Init /\ [][Next]_vars

\* every entry that a later run may rely on is whole and was made by its version
InvWhole == qs.whole /\ \A e \in dir : e.whole /\ e.made = e.v
\* nothing is exported or measured that was stored when the run began
InvAgain == p.on => (p.x \cap p.d0 = {} /\ p.m \cap p.q0 = {})
\* a finished run has all its pages; a pruning one nothing else
InvDone == p.on /\ p.pc = "end" =>
             /\ \A i \in DOMAIN p.c : \E e \in dir : e.k = p.c[i] /\ e.v = p.v
             /\ p.prune => Unused = {}
             /\ p.save => (qs.v = p.v /\ (p.prune => qs.ks = p.used))
Emit == (~p.on /\ hist # <<>> /\ Len(hist) = RUNS) => PrintT("PROG" \o ToJson(hist))
=============================================================================

------------------------------- MODULE Cache --------------------------------
(* A cache directory used by a sequence of processes, as far as it can be seen from outside:         *)
(* which pages Inkscape exports, which texts it measures, which entries lie in the directory.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* dir: [files: set of <<key, version>>, qlo, qhi: sets of <<key, query version>>]
\*   qlo: measurements that are certainly stored, qhi: that may be stored
\* deck: [mlo, mhi: measurements it has certainly / possibly at hand, used: the ones it used,
\*        known: page keys it may rely on, uf: entries it used, at: files when it was created]
EmptyDir == [files |-> {}, qlo |-> {}, qhi |-> {}]
NewDeck(dir, v, iv) == [mlo |-> {q[1] : q \in {q \in dir.qlo : q[2] = iv}}, mhi |-> {q[1] : q \in {q \in dir.qhi : q[2] = iv}},
                        used |-> {}, known |-> {f[1] : f \in {f \in dir.files : f[2] = v}}, uf |-> {}, at |-> dir.files]

\* which measurements must / must not be made by a step that needs `need`
MustM(d, need) == need \ d.mhi
MayNotM(d) == d.mlo
Measured(d, m, need) == [d EXCEPT !.mlo = @ \cup m \cup need, !.mhi = @ \cup m \cup need, !.used = @ \cup m \cup need]

\* which pages must / must not be exported by a render of the pages `need`
Here(dir, v) == {f[1] : f \in {f \in dir.files : f[2] = v}}
MustX(d, dir, v, need) == need \ Here(dir, v)
MayNotX(d, dir, v) == d.known \cap Here(dir, v)

\* what is stored after a render
StoredLo(d, dir, iv, prune, save) ==
  IF save THEN {<<k, iv>> : k \in IF prune THEN d.used ELSE d.mlo \cup d.used}
  ELSE IF prune THEN {q \in dir.qlo : q[2] = iv /\ q[1] \in d.used} ELSE dir.qlo
StoredHi(d, dir, iv, prune, save) ==
  IF save /\ prune THEN {<<k, iv>> : k \in d.used} \cup {q \in dir.qhi : q[2] # iv}
  ELSE IF save THEN dir.qhi \cup {<<k, iv>> : k \in d.mhi \cup d.used}
  ELSE dir.qhi

\* what may lie in the directory after a successful render with pruning
PrunedOk(d, before, after, v, need) ==
  /\ \A k \in need : <<k, v>> \in after
  /\ \A f \in before : (f[1] \in d.uf /\ f[2] = v) => f \in after
  /\ \A f \in after : f \in d.at => (f[1] \in d.uf \cup need /\ f[2] = v)
=============================================================================

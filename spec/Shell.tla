-------------------------------- MODULE Shell --------------------------------
(* The conversation with the Inkscape process.                                                       *)
(* Reader: what the client takes for the reply, from the characters it reads one by one.             *)
(* Requests: which requests succeed when the process misbehaves in some way.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* ------------------------------------------------------------- characters
NL == "/"
\* the prompt is "> " at the beginning of a line
IsPrompt(cs) == LET n == Len(cs) IN n >= 2 /\ cs[n] = " " /\ cs[n - 1] = ">" /\ (n = 2 \/ cs[n - 2] = NL)
Lines(cs) == LET RECURSIVE L(_, _)
                 L(rest, cur) == IF rest = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                                 ELSE IF Head(rest) = NL THEN <<cur>> \o L(Tail(rest), <<>>)
                                 ELSE L(Tail(rest), Append(cur, Head(rest)))
             IN L(cs, <<>>)
\* the reply: the last line before the prompt
Reply(cs) == LET ls == Lines(SubSeq(cs, 1, Len(cs) - 2))
             IN IF ls = <<>> THEN <<>> ELSE ls[Len(ls)]
\* output that the protocol can tell from a prompt
Clean(lines) == \A i \in 1..Len(lines) : ~(Len(lines[i]) >= 2 /\ lines[i][1] = ">" /\ lines[i][2] = " ")

\* --------------------------------------------------------------- requests
\* faults that fired during a request: "die", "junk" (an unusable reply to a query), "nofile"; anything else is harmless
Known0 == [alive |-> TRUE, has |-> {}]
Fatal(fs) == "die" \in fs
Spoils(fs) == fs \cap {"die", "junk", "nofile"} # {}
NeedsIt(s, needs) == ~(needs \subseteq s.has)
Succeeds(s, needs, fs) == ~NeedsIt(s, needs) \/ (s.alive /\ ~Spoils(fs))
After(s, needs, fs, ok) == [alive |-> s.alive /\ ~Fatal(fs), has |-> IF ok THEN s.has \cup needs ELSE s.has]
=============================================================================

------------------------------ MODULE MC_Shell ------------------------------
(* The protocol, character by character: server and client interleave arbitrarily (which is every     *)
(* chunking of the output), the server may print extra lines before a reply, talk to standard error    *)
(* and end at any moment.                                                                              *)
EXTENDS Shell
CONSTANTS N, DRAIN, MAYDIE
VARIABLES out, err, got, res, sv, todo, noisy
\* out: characters in the pipe; err: amount in the error pipe; got: characters read since the last prompt
\* res: replies taken; sv: [i: commands taken, alive]; todo: characters the server has still to write
\* noisy: commands with extra output so far
vars == <<out, err, got, res, sv, todo, noisy>>
CAP == 2
Digit == <<"1", "2", "3", "4">>
Noise == {<<>>, <<<<"a">>>>, <<<<>>>>, <<<<">">>>>, <<<<"a", ">", " ">>, <<" ", ">", " ", "a">>>>, <<<<">", "a", " ">>>>}
ASSUME \A n \in Noise : Clean(n)
Flat(lines) == FoldLeft(LAMBDA acc, l : acc \o l \o <<NL>>, <<>>, lines)

Init == out = <<>> /\ err = 0 /\ got = <<>> /\ res = <<>> /\ sv = [i |-> 0, alive |-> TRUE, err |-> 0] /\ noisy = 0
        /\ todo \in {Flat(n) \o <<">", " ">> : n \in Noise}         \* the banner
\* the client sends a command once it has read the previous prompt
Asked == Len(res)        \* prompts read; the first one is that of the banner
Finished == Asked = N + 1
Serve == /\ sv.alive /\ todo = <<>> /\ sv.err = 0 /\ sv.i < Asked /\ sv.i < N
         /\ \E n \in Noise, e \in {0, CAP + 1} :
              /\ (n # <<>> \/ e > 0 => noisy < 2)
              /\ todo' = Flat(n) \o (IF sv.i % 2 = 0 THEN <<Digit[sv.i + 1], NL>> ELSE <<>>) \o <<">", " ">>
              /\ sv' = [sv EXCEPT !.i = @ + 1, !.err = e]
              /\ noisy' = noisy + (IF n # <<>> \/ e > 0 THEN 1 ELSE 0)
         /\ UNCHANGED <<out, err, got, res>>
WriteErr == /\ sv.alive /\ sv.err > 0 /\ (DRAIN \/ err < CAP)
            /\ err' = (IF DRAIN THEN 0 ELSE err + 1) /\ sv' = [sv EXCEPT !.err = @ - 1]
            /\ UNCHANGED <<out, got, res, todo, noisy>>
Write == /\ sv.alive /\ sv.err = 0 /\ todo # <<>>
         /\ out' = Append(out, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<err, got, res, sv, noisy>>
Die == MAYDIE /\ sv.alive /\ sv' = [sv EXCEPT !.alive = FALSE] /\ UNCHANGED <<out, err, got, res, todo, noisy>>
\* what is known of reply i (of command i - 1): commands alternate between queries and others
Read == /\ ~Finished /\ out # <<>>
        /\ LET c == Append(got, Head(out))
           IN IF IsPrompt(c) THEN res' = Append(res, Reply(c)) /\ got' = <<>> ELSE got' = c /\ res' = res
        /\ out' = Tail(out) /\ UNCHANGED <<err, sv, todo, noisy>>
\* end of file: the call fails, and so do all later ones
Eof == /\ ~Finished /\ out = <<>> /\ ~sv.alive
       /\ res' = [i \in 1..(N + 1) |-> IF i <= Len(res) THEN res[i] ELSE <<"failed">>]
       /\ UNCHANGED <<out, err, got, sv, todo, noisy>>
Next == Serve \/ WriteErr \/ Write \/ Die \/ Read \/ Eof
Spec == Init /\ [][Next]_vars /\ WF_vars(Serve) /\ WF_vars(WriteErr) /\ WF_vars(Write) /\ WF_vars(Read) /\ WF_vars(Eof)

\* every reply is that of its command
Match == \A i \in 2..Len(res) : res[i] = <<"failed">> \/ (i % 2 = 0 => res[i] = <<Digit[i - 1]>>)
NoFalseFailure == sv.alive => \A i \in 1..Len(res) : res[i] # <<"failed">>
Answered == <>Finished
=============================================================================

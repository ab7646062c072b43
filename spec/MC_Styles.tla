----------------------------- MODULE MC_Styles -----------------------------
(* Every history of up to N operations on at most three containers and one or two names *)
EXTENDS Styles, Json
CONSTANTS N, EMIT
D0 == [Unset EXCEPT !.font = "sans-serif", !.size = 28000, !.color = "black", !.variant = "lining-nums", !.align = "middle", !.spacing = 1200]
VARIABLES s, h
vars == <<s, h>>
Objs == <<[Unset EXCEPT !.color = "red", !.bold = "T"], [Unset EXCEPT !.color = "blue"]>>
Init == s = [S0(("default" :> D0)) EXCEPT !.objs = Objs] /\ h = <<>>
Do(op) == LET r == ApplyOp(s, op) IN s' = r.s /\ h' = Append(h, op)
C == 1..Len(s.cont)
Next == /\ Len(h) < N
        /\ \/ \E c \in C : Len(s.cont) < 3 /\ Do([op |-> "new", c |-> c])
           \/ \E w \in {"mut", "set", "update", "ctor"} : Do([op |-> "wrong", how |-> w, c |-> Len(s.cont), o |-> 1, name |-> "a", i |-> Len(h) + 1])
           \/ \E c \in C, o \in 1..2, b \in {"default", "a"} : Do([op |-> "set", c |-> c, name |-> "a", o |-> o, base |-> b])
           \/ \E c \in C, n \in {"a", "default"} : Do([op |-> "update", c |-> c, name |-> n, o |-> 2])
           \/ \E c \in C : Len(s.objs) < 4 /\ Do([op |-> "get", c |-> c, name |-> "a", full |-> FALSE])
           \/ \E o \in 1..Len(s.objs) : Do([op |-> "mut", o |-> o, attr |-> "color", val |-> "green"])
           \/ \E c \in C : c > 1 /\ Len(s.texts) < 2 /\ Do([op |-> "text", c |-> c, o |-> 0, name |-> "default", names |-> <<"a">>])
Spec == Init /\ [][Next]_vars
\* an operation changes the styles of one container only, and only the one it is called on
Isolated == [][ \A c \in C : s'.cont[c] # s.cont[c] => /\ Last(h').op \in {"set", "update"} /\ Last(h').c = c
                                                        /\ \A d \in C \ {c} : s'.cont[d] = s.cont[d] ]_vars
\* texts and objects made earlier are not changed by style operations
Fixed == [][ IsPrefix(s.texts, s'.texts) /\ (Last(h').op # "mut" => IsPrefix(s.objs, s'.objs)) ]_vars
\* changing an object of the caller changes nothing else
Values == [][ Last(h').op = "mut" => s'.cont = s.cont /\ s'.texts = s.texts ]_vars
\* a rejected call changes nothing
Act_Wrong == [][Last(h').op = "wrong" => s' = s]_vars
Emit == EMIT /\ Len(h) = N => PrintT("PROG" \o ToJson(h))
=============================================================================

----------------------------- MODULE LockSched ----------------------------
(* Draws scripts for several clients and a schedule of their Redis         *)
(* commands, with time passing, errors and cancellations in between.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Calls, Steps, Sim
R(S) == RandomElement(S)
KeySets == {<<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>, <<"b", "c">>, <<"c", "a", "b">>, <<"a", "", "a">>, <<"c">>, <<"b", "a", "b">>}
Single == {<<"a">>, <<"b">>, <<"c">>}
VARIABLES step, fin
RandCall(n) == LET k == R({"lock", "lock", "wait", "short", "unlock", "unlock", "extend"})
               IN [k |-> k, keys |-> IF k = "extend" THEN R(Single) ELSE R(KeySets), ttl |-> R({1, 2, 3}), multi |-> R({TRUE, TRUE, FALSE})]
\* lock and later unlock the same keys; others' keys and strangers' now and then
Script(c) == [n \in 1..Calls |-> RandCall(n)]
Item(n) == LET x == R(1..14)
           IN CASE x = 1 -> [k |-> "tick", c |-> 0, n |-> R({1, 2, 3})]
                [] x = 2 -> [k |-> "fault", c |-> R(1..N), n |-> 0]
                [] x = 3 -> [k |-> "cancel", c |-> R(1..N), n |-> 0]
                [] OTHER -> [k |-> "step", c |-> R(1..N), n |-> 0]
Init == step = 0 /\ fin = FALSE
Next == /\ ~fin /\ fin' = TRUE /\ step' = 1
        /\ PrintT(<<"ZZPROG", ToJson([scripts |-> [c \in 1..N |-> Script(c)], sched |-> [n \in 1..Steps |-> Item(n)]])>>)
Spec == Init /\ [][Next]_<<step, fin>>
Inv == TRUE
===========================================================================

------------------------------- MODULE Lock -------------------------------
(* The lock protocol, one Redis command per step: take the wanted keys one *)
(* by one, give back what was taken when one is held, compare before       *)
(* deleting.  Keys may run out at any time.                                *)
EXTENDS Integers, FiniteSets, Sequences, TLC, SequencesExt

CONSTANTS Scn, Expiries, UseCompare, UseRollback, UseOrder
\* who wants what
Want == CASE Scn = "pair" -> ("c1" :> {1, 2} @@ "c2" :> {1, 2})
          [] Scn = "ring" -> ("c1" :> {1, 2} @@ "c2" :> {2, 3} @@ "c3" :> {1, 3})
          [] Scn = "one"  -> ("c1" :> {1} @@ "c2" :> {1} @@ "c3" :> {1, 2})
C == DOMAIN Want
K == UNION {Want[c] : c \in C}
Free == "free"
Ord(c) == LET s == SetToSortSeq(Want[c], <) IN IF UseOrder \/ c = "c1" THEN s ELSE Reverse(s)

VARIABLES store,  \* key -> owner
          pc,     \* [st, n]: trying the n-th, holding, giving back the n-th
          good,   \* clients none of whose keys ran out since they held them all
          exp
vars == <<store, pc, good, exp>>
Init == /\ store = [k \in K |-> Free] /\ pc = [c \in C |-> [st |-> "idle", n |-> 0]]
        /\ good = {} /\ exp = 0
At(c, s) == pc[c].st = s
Go(c, s, n) == pc' = [pc EXCEPT ![c] = [st |-> s, n |-> n]]
Start(c) == At(c, "idle") /\ Go(c, "try", 1) /\ UNCHANGED <<store, good, exp>>
Try(c) ==
  /\ At(c, "try") /\ exp' = exp
  /\ LET n == pc[c].n  k == Ord(c)[n]
     IN IF store[k] = Free
          THEN /\ store' = [store EXCEPT ![k] = c]
               /\ IF n = Len(Ord(c)) THEN /\ Go(c, "hold", 0)
                                          /\ good' = IF \A j \in 1..(n - 1) : store[Ord(c)[j]] = c THEN good \cup {c} ELSE good
                                     ELSE Go(c, "try", n + 1) /\ good' = good
          ELSE /\ UNCHANGED <<store, good>>
               /\ IF UseRollback /\ n > 1 THEN Go(c, "back", n - 1) ELSE Go(c, "idle", 0)
Give(c) == \* compare and delete
  /\ pc[c].st \in {"back", "free"} /\ exp' = exp /\ good' = good
  /\ LET n == pc[c].n  k == Ord(c)[n]
     IN /\ store' = IF store[k] = c \/ ~UseCompare THEN [store EXCEPT ![k] = Free] ELSE store
        /\ IF n > 1 THEN Go(c, pc[c].st, n - 1) ELSE Go(c, "idle", 0)
Done(c) == At(c, "hold") /\ Go(c, "free", Len(Ord(c))) /\ good' = good \ {c} /\ UNCHANGED <<store, exp>>
Expire == \E k \in K : /\ store[k] # Free /\ exp < Expiries /\ exp' = exp + 1
                       /\ store' = [store EXCEPT ![k] = Free]
                       /\ good' = good \ {store[k]} /\ pc' = pc
Next == (\E c \in C : Start(c) \/ Try(c) \/ Give(c) \/ Done(c)) \/ Expire
Spec == Init /\ [][Next]_vars /\ \A c \in C : WF_vars(Start(c)) /\ WF_vars(Try(c)) /\ WF_vars(Give(c)) /\ WF_vars(Done(c))

Exclusion == \A c, d \in good : c # d => Want[c] \cap Want[d] = {}
Held == \A c \in good : \A k \in Want[c] : store[k] = c
NothingLeft == \A c \in C : At(c, "idle") => \A k \in K : store[k] # c
Progress == []<>(\E c \in C : At(c, "hold"))
===========================================================================

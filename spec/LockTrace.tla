----------------------------- MODULE LockTrace ----------------------------
(* Recorded executions of the lock package: calls, what they answered, and *)
(* every change of the stored keys with the client whose command made it.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json, IOUtils
CONSTANT Watch
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, store, call, viol
vars == <<t, i, store, call, viol>>
Ev == Traces[t].ev
Empty == [x \in {} |-> 0]
Init == t \in 1..Len(Traces) /\ i = 1 /\ store = Empty /\ call = Empty /\ viol = {}

Rng(s) == {s[n] : n \in 1..Len(s)}
KeysOf(e) == Rng(e.keys) \ {""}
Locking == {"lock", "wait", "short"}
Val(S, k) == IF k \in DOMAIN S THEN S[k].v ELSE ""
Ttl(S, k) == IF k \in DOMAIN S THEN S[k].t ELSE 0
AsMap(m) == IF DOMAIN m = {} THEN Empty ELSE m
\* keys another client holds
Others(S, e) == {k \in KeysOf(e) : Val(S, k) # ""}

\* one command of client c took store S to N during call e
JudgeChange(c, e, S, N) ==
  LET Ks == DOMAIN S \cup DOMAIN N
      bad(k) == LET o == Val(S, k)  n == Val(N, k)
                IN CASE o = n /\ Ttl(S, k) = Ttl(N, k) -> {}
                     [] o = n -> IF o = c /\ k \in KeysOf(e) /\ e.k = "extend" THEN {} ELSE {"theft"}
                     [] o = "" -> IF n = c /\ k \in KeysOf(e) /\ e.k \in Locking THEN {} ELSE {"strange"}
                     [] n = "" -> IF o # c THEN {"theft"}
                                  ELSE IF k \in KeysOf(e) /\ (e.k = "unlock" \/ (e.k \in Locking /\ k \in e.got)) THEN {} ELSE {"dropped"}
                     [] OTHER -> {"theft"}
      none == {}
  IN UNION {bad(k) : k \in Ks} \cup none

Upd(c, e, S, N) ==
  [e EXCEPT !.got = (@ \cup {k \in KeysOf(e) : Val(S, k) = "" /\ Val(N, k) = c}) \ {k \in @ : Val(N, k) = ""},
            !.rel = @ \cup {k \in KeysOf(e) : Val(S, k) = c /\ Val(N, k) = ""},
            !.seen = @ \/ Others(N, e) \ {k \in KeysOf(e) : Val(S, k) = "" /\ Val(N, k) = c} # {}]

JudgeRet(c, e, S, r) ==
  LET mine == {k \in KeysOf(e) : Val(S, k) = c}
      cut == e.fault \/ e.cancel
  IN CASE e.k \in Locking /\ r.ok -> (IF mine \cup e.lost # KeysOf(e) THEN {"partial"} ELSE {})
                                 \cup (IF \E k \in e.got \cap mine : Ttl(S, k) > e.ttl THEN {"ttl"} ELSE {})
       [] e.k \in Locking /\ ~r.ok -> (IF e.got \cap mine # {} /\ ~e.fault THEN {"leftover"} ELSE {})
                                 \cup (IF ~e.seen /\ ~cut /\ e.k # "short" THEN {"refused"} ELSE {})
                                 \cup (IF ~cut /\ r.cls # (IF e.k = "lock" THEN "held" ELSE "timeout") THEN {"class"} ELSE {})
                                 \cup (IF ~cut /\ e.k = "wait" THEN {"gaveup"} ELSE {})
       [] e.k = "unlock" -> (IF ~e.fault /\ mine # {} THEN {"stuck"} ELSE {})
                       \cup (IF r.ok /\ e.rel # KeysOf(e) THEN {"answer"} ELSE {})
                       \cup (IF ~r.ok /\ ~e.fault /\ e.rel = KeysOf(e) THEN {"answer"} ELSE {})
       [] e.k = "extend" -> (IF r.ok /\ (mine # KeysOf(e) \/ \E k \in mine : Ttl(S, k) # e.ttl) THEN {"answer"} ELSE {})
                       \cup (IF ~r.ok /\ ~cut /\ mine = KeysOf(e) THEN {"answer"} ELSE {})
       [] OTHER -> {}

Step ==
  /\ i <= Len(Ev) /\ i' = i + 1 /\ t' = t
  /\ LET v == Ev[i]
     IN CASE v.e = "call" ->
              /\ call' = (v.c :> [k |-> v.k, keys |-> v.keys, ttl |-> v.ttl, got |-> {}, rel |-> {}, lost |-> {}, fault |-> FALSE, cancel |-> v.dead,
                                  seen |-> Others(store, v) # {}]) @@ call
              /\ UNCHANGED <<store, viol>>
          [] v.e = "store" ->
              LET N == AsMap(v.m)
              IN /\ store' = N
                 /\ IF v.c = "time"
                      THEN /\ viol' = viol
                           /\ call' = [c \in DOMAIN call |-> [call[c] EXCEPT !.lost = @ \cup {k \in KeysOf(call[c]) : Val(store, k) = c /\ Val(N, k) = ""}]]
                      ELSE /\ viol' = viol \cup JudgeChange(v.c, call[v.c], store, N)
                           /\ call' = [c \in DOMAIN call |-> IF c = v.c THEN Upd(c, call[c], store, N)
                                                             ELSE [call[c] EXCEPT !.seen = @ \/ Others(N, call[c]) # {}]]
          [] v.e \in {"fault", "cancel"} ->
              /\ call' = IF v.c \in DOMAIN call THEN (IF v.e = "fault" THEN [call EXCEPT ![v.c].fault = TRUE] ELSE [call EXCEPT ![v.c].cancel = TRUE]) ELSE call
              /\ UNCHANGED <<store, viol>>
          [] v.e = "ret" ->
              /\ viol' = viol \cup JudgeRet(v.c, call[v.c], store, v)
              /\ call' = [x \in DOMAIN call \ {v.c} |-> call[x]]
              /\ store' = store
          [] v.e = "end" -> /\ viol' = viol \cup (IF v.stuck THEN {"deadlock"} ELSE {}) /\ UNCHANGED <<store, call>>
          [] OTHER -> /\ viol' = viol \cup {"unknown"} /\ UNCHANGED <<store, call>>
Next == /\ Step
        /\ IF (viol' \ viol) \cap Watch # {}
             THEN PrintT(<<"ZZVIOL", ToJson([id |-> Traces[t].id, n |-> t, at |-> i, tags |-> viol' \ viol])>>) ELSE TRUE
        /\ IF i = Len(Ev) THEN PrintT(<<"ZZEND", Traces[t].id>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
NoViolation == viol \cap Watch = {}
===========================================================================

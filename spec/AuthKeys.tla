----------------------------- MODULE AuthKeys -----------------------------
(* The life of API keys: minted by the master or by another key, used,     *)
(* listed, revoked, expired.                                               *)
EXTENDS AuthCore, Json

CONSTANTS MaxLen, Sim
Owners == {"alice", "bob"}
ScopeSets == {{Scope("*", "*")}, {Scope("api-keys", "*")}, {Scope("api-keys", "write"), Scope("ledgers", "read")},
              {Scope("ledgers", "*")}, {Scope("ledgers", "write")}, {Scope("api-keys", "read"), Scope("api-keys", "delete")},
              {Scope("*", "read")}, {Scope("", "ledgers"), Scope("ledgers", "read")}, {Scope("", "*")}}
Probes == {[seg |-> "ledgers", m |-> "GET"], [seg |-> "ledgers", m |-> "POST"], [seg |-> "api-keys", m |-> "GET"],
           [seg |-> "transactions", m |-> "GET"]}

VARIABLES keys,  \* label -> [owner, scopes, life, revoked]
          late,  \* the short-lived ones have expired
          hist, fin
vars == <<keys, late, hist, fin>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
L == "k" \o ToString(Len(hist) + 1)
Live(k) == LET x == keys[k] IN ~x.revoked /\ (x.life = "long" \/ (x.life = "short" /\ ~late))
Log(op, exp) == hist' = Append(hist, [op |-> op, exp |-> exp @@ [leak |-> FALSE]])
Who == {"master"} \cup DOMAIN keys
Auth(by, seg, m) == by = "master" \/ (Live(by) /\ May(keys[by].scopes, seg, m))
Key(o, s, life) == [owner |-> o, scopes |-> s, life |-> life, revoked |-> FALSE]
ByOp(k, by) == [l |-> L, k |-> k, by |-> by]

Mint == \E by \in Pick(Who), o \in Pick(Owners), s \in Pick(ScopeSets), life \in Pick({"long", "long", "short", "past"}) :
  LET ok == /\ Auth(by, "api-keys", "POST")
            /\ by # "master" => o = keys[by].owner /\ CanGrant(keys[by].scopes, s)
  IN /\ keys' = IF ok THEN (L :> Key(o, s, life)) @@ keys ELSE keys
     /\ late' = late
     /\ Log(ByOp("mint", by) @@ [owner |-> o, scopes |-> SetToSeq(s), life |-> IF late /\ life = "short" THEN "past" ELSE life], [served |-> ok])
Use == \E by \in Pick(DOMAIN keys), p \in Pick(Probes), how \in Pick({"good", "good", "good", "tail", "prefix"}) :
  /\ UNCHANGED <<keys, late>>
  /\ Log(ByOp("use", by) @@ [seg |-> p.seg, m |-> p.m, how |-> how], [served |-> how = "good" /\ Auth(by, p.seg, p.m)])
Mine(o) == {k \in DOMAIN keys : keys[k].owner = o}
\* "" : no owner named
List == \E by \in Pick(Who), o \in Pick(Owners \cup {""}) :
  LET auth == Auth(by, "api-keys", "GET")
      ok == auth /\ (IF by = "master" THEN o # "" ELSE o \in {"", keys[by].owner})
      who == IF by = "master" \/ ~ok THEN o ELSE keys[by].owner
  IN /\ UNCHANGED <<keys, late>>
     /\ Log(ByOp("list", by) @@ [owner |-> o], [served |-> ok] @@ (IF ok THEN [keys |-> [k \in Mine(who) |-> keys[k].revoked]] ELSE [x \in {} |-> 0]))
Revoke == \E by \in Pick(Who), t \in Pick(DOMAIN keys), o \in Pick(Owners \cup {""}) :
  LET ok == /\ Auth(by, "api-keys", "DELETE")
            /\ IF by = "master" THEN o # "" ELSE o \in {"", keys[by].owner}
            /\ keys[t].owner = (IF by = "master" THEN o ELSE keys[by].owner)
  IN /\ keys' = IF ok THEN [keys EXCEPT ![t].revoked = TRUE] ELSE keys
     /\ late' = late
     /\ Log(ByOp("revoke", by) @@ [tgt |-> t, owner |-> o], [served |-> ok])
Tick == /\ ~late /\ late' = TRUE /\ keys' = keys /\ \E k \in DOMAIN keys : keys[k].life = "short"
        /\ Log([k |-> "tick"], [served |-> TRUE])

Init == keys = [k \in {} |-> 0] /\ late = FALSE /\ hist = <<>> /\ fin = FALSE
Step == /\ Len(hist) < MaxLen /\ fin' = FALSE
        /\ \/ Mint \/ (DOMAIN keys # {} /\ (Use \/ Revoke)) \/ List \/ Tick
Finish == /\ Sim /\ ~fin /\ Len(hist) = MaxLen /\ fin' = TRUE
          /\ PrintT(<<"ZZPROG", ToJson(hist)>>) /\ UNCHANGED <<keys, late, hist>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
\* no chain of minting gives an owner's keys, taken together, more than the
\* master granted some key; keys minted by keys stay with their owner
ByMaster(k) == \E n \in 1..Len(hist) : hist[n].op.k = "mint" /\ hist[n].op.l = k /\ hist[n].op.by = "master"
Inv == \A k \in DOMAIN keys : ~ByMaster(k) =>
         \A seg \in {"ledgers", "api-keys", "transactions"}, m \in {"GET", "POST", "DELETE"} : May(keys[k].scopes, seg, m) =>
            \E j \in DOMAIN keys : ByMaster(j) /\ keys[j].owner = keys[k].owner /\ May(keys[j].scopes, seg, m)
NoRevival == [][\A k \in DOMAIN keys : ~Live(k) => ~Live(k)']_vars
===========================================================================

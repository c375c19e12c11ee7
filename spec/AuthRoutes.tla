---------------------------- MODULE AuthRoutes ----------------------------
(* Every route of the running router and some that do not exist, against   *)
(* every shape of credential: exhaustive.                                  *)
EXTENDS AuthCore, Json, IOUtils

CONSTANT Full
Dumped == ndJsonDeserialize(IOEnv.ROUTES)
Routes == {Dumped[n] : n \in 1..Len(Dumped)}   \* method m, path p, first segment seg

R2 == {"ledgers", "api-keys"}
A3 == {"read", "write", "delete"}
Single == {{Scope(r, a)} : r \in (IF Full THEN Resources ELSE R2) \cup {"*"}, a \in A3 \cup {"*"}}
Pairs == {{Scope("ledgers", "read"), Scope("balances", "write")}, {Scope("", "transactions"), Scope("hooks", "delete")},
          {Scope("ledgers", "write"), Scope("*", "read")}, {Scope("", "*"), Scope("identities", "*")}}
Odd == {{Scope("", x)} : x \in {"*", "ledgers", "ledgers:read:write", ":", "ledgers:", ":read", "LEDGERS:read", "*:*:*", "ledgers:Read"}}
Creds == {[kind |-> "key", scopes |-> s] : s \in Single \cup Pairs \cup Odd}
         \cup {[kind |-> k, scopes |-> {}] : k \in {"none", "wrong", "master", "nearmaster", "prefix"}}

OpenPaths == {"/", "/health", "/metrics"}
MasterOnly == {"hooks"}
Served(c, r) == \/ r.p \in OpenPaths
                \/ c.kind = "master"
                \/ c.kind = "key" /\ May(c.scopes, r.seg, r.m) /\ ~(r.real /\ r.seg \in MasterOnly)

VARIABLES todo, now
Init == todo = Creds /\ now = [kind |-> "start", scopes |-> {}]
Prog(c) == LET rs == SetToSeq(Routes)
           IN <<[op |-> [k |-> "cred", kind |-> c.kind, scopes |-> SetToSeq(c.scopes)], exp |-> [ok |-> TRUE]]>> \o
              [n \in 1..Len(rs) |-> [op |-> [k |-> "req", m |-> rs[n].m, p |-> rs[n].p],
                                     exp |-> [served |-> Served(c, rs[n]), changed |-> FALSE]]]
Next == \E c \in todo : /\ todo' = todo \ {c} /\ now' = c
                        /\ c = CHOOSE x \in todo : TRUE
                        /\ PrintT(<<"ZZPROG", ToJson(Prog(c))>>)
Spec == Init /\ [][Next]_<<todo, now>>
\* nothing but an open route is served without a credential, and every key's
\* authority comes from one of its scopes
Inv == /\ \A r \in Routes : now.kind \in {"none", "wrong", "nearmaster", "prefix"} /\ Served(now, r) => r.p \in OpenPaths
       /\ \A r \in Routes : now.kind = "key" /\ now.scopes = {} => (Served(now, r) => r.p \in OpenPaths)
       /\ \A s \in Single \cup Pairs \cup Odd : now.kind = "key" => Sound(now.scopes, s)
===========================================================================

----------------------------- MODULE AuthCore -----------------------------
(* Who may do what.  A scope grants an action on a resource, either of     *)
(* them possibly "*".  Every route belongs to a resource by its first path *)
(* segment; the HTTP method decides the action.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Resources == {"ledgers", "balances", "accounts", "identities", "transactions", "balance-monitors",
              "hooks", "api-keys", "search", "reconciliation", "metadata", "backup"}
None == "none"
ResourceOf(seg) == CASE seg \in Resources -> seg
                     [] seg = "mocked-account" -> "accounts"
                     [] seg = "multi-search" -> "search"
                     [] seg = "refund-transaction" -> "transactions"
                     [] OTHER -> None
ActionOf(m) == CASE m \in {"GET", "HEAD"} -> "read"
                 [] m \in {"POST", "PUT", "PATCH"} -> "write"
                 [] m = "DELETE" -> "delete"
                 [] OTHER -> None
Scope(r, a) == [r |-> r, a |-> a]
Proper(s) == s.r # "" /\ s.a # ""
Grants(s, r, a) == Proper(s) /\ s.r \in {r, "*"} /\ s.a \in {a, "*"}
May(scopes, seg, m) == /\ ResourceOf(seg) # None /\ ActionOf(m) # None
                       /\ \E s \in scopes : Grants(s, ResourceOf(seg), ActionOf(m))
\* a scope that covers everything another one does
CoversScope(g, q) == Proper(g) /\ Proper(q) /\ (g.r = "*" \/ g.r = q.r) /\ (g.a = "*" \/ g.a = q.a)
CanGrant(mine, wanted) == \A q \in wanted : \E g \in mine : CoversScope(g, q)
\* granting can never widen authority
Sound(mine, wanted) == CanGrant(mine, wanted) =>
   \A seg \in Resources, m \in {"GET", "POST", "DELETE"} : May(wanted, seg, m) => May(mine, seg, m)
===========================================================================

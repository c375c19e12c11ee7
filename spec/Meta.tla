------------------------------- MODULE Meta -------------------------------
(* Metadata of ledgers, balances, identities, transactions and bulk        *)
(* batches: an update sets the given keys and keeps the others; postings   *)
(* in between neither lose metadata nor are they affected.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json
CONSTANTS MaxLen, Sim
KeysU == {"a", "b", "c.d", "blnk x"}
Vals == {"1", "\"x\"", "{\"n\":[1,2]}", "null", "\"\"", "true", "{}", "9007199254740991", "-0.125", "\"Ünï \\\" '$1\""}
VARIABLES rows,   \* entity -> metadata (key -> value)
          group,  \* entity that can be addressed -> rows it covers
          hist, fin
vars == <<rows, group, hist, fin>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
L == "e" \o ToString(Len(hist) + 1)
Maps == [KeysU -> Vals \cup {"-"}]
RandMap(n) == LET d == RandomElement(SUBSET KeysU) IN TLCEval([k \in d |-> RandomElement(Vals)])
RandOver(d) == {TLCEval([k \in d |-> IF Sim THEN RandomElement(Vals) ELSE "1"])}
SomeMap(n) == IF Sim THEN {RandMap(n)} ELSE {[a |-> "1"], [a |-> "2", b |-> "null"], [x \in {} |-> ""]}
Log(op, ok) == hist' = Append(hist, [op |-> op, exp |-> [ok |-> ok, meta |-> rows', intact |-> TRUE]])

Create == \E k \in Pick({"ldg", "bln", "idt", "txn", "txn", "queued", "bulk", "hold"}), m \in SomeMap(Len(hist)) :
  LET l == L
      new == IF k = "bulk" THEN {l \o "m1", l \o "m2"} ELSE IF k = "queued" THEN {l, l \o "child"} ELSE {l}
  IN /\ rows' = [r \in new |-> m] @@ rows
     /\ group' = (l :> new) @@ (IF k = "queued" THEN (l \o "child" :> {l \o "child"}) ELSE IF k = "bulk" THEN (l \o "m1" :> {l \o "m1"}) ELSE [x \in {} |-> 0]) @@ group
     /\ Log([k |-> "create", kind |-> k, l |-> l, meta |-> m], TRUE)
Update == \E e \in Pick(DOMAIN group \cup {"missing"}), m \in SomeMap(Len(hist)) :
  /\ group' = group
  /\ rows' = IF e = "missing" THEN rows ELSE [r \in DOMAIN rows |-> IF r \in group[e] THEN m @@ rows[r] ELSE rows[r]]
  /\ Log([k |-> "update", tgt |-> e, meta |-> m], e # "missing")
\* money moves between the balances
Post == /\ UNCHANGED <<rows, group>> /\ \E n \in Pick({1, 2, 3}) : Log([k |-> "post", n |-> n], TRUE)
\* two updates of different keys at once, or an update while money moves: one
\* of them stands still before its at-th statement until the other is done
Both == \E e \in Pick(DOMAIN group), at \in Pick(1..4), post \in Pick(BOOLEAN), d \in Pick(SUBSET KeysU) :
  \E m \in RandOver(d), m2 \in RandOver(KeysU \ d) :
  /\ group' = group
  /\ rows' = [r \in DOMAIN rows |-> IF r \in group[e] THEN m @@ (IF post THEN rows[r] ELSE m2 @@ rows[r]) ELSE rows[r]]
  /\ Log([k |-> "both", tgt |-> e, meta |-> m, meta2 |-> m2, at |-> at, post |-> post], TRUE)
\* the hold is settled: its part carries the metadata of the hold at that time
Init == rows = [x \in {} |-> 0] /\ group = [x \in {} |-> 0] /\ hist = <<>> /\ fin = FALSE
Next == \/ Len(hist) < MaxLen /\ fin' = fin /\ (Create \/ Update \/ Update \/ Post \/ (Sim /\ Both) \/ Both)
        \/ /\ Sim /\ ~fin /\ Len(hist) = MaxLen /\ fin' = TRUE
           /\ PrintT(<<"ZZPROG", ToJson(hist)>>) /\ UNCHANGED <<rows, group, hist>>
Spec == Init /\ [][Next]_vars
Inv == \A e \in DOMAIN group : group[e] \subseteq DOMAIN rows
Keeps == [][\A r \in DOMAIN rows : DOMAIN rows[r] \subseteq DOMAIN rows'[r]]_vars
===========================================================================

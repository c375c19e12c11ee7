------------------------------- MODULE Monitors -------------------------------
(* Balance monitors.  A monitor names a balance, a field of it, an operator   *)
(* and a threshold; after a posting one notification is sent for every        *)
(* monitor of the source and of the destination whose condition holds on the  *)
(* balance the posting leaves behind.  Monitors are made, changed, moved to   *)
(* another balance and deleted between postings, on the process that serves   *)
(* requests or on another, and postings run on either.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json
CONSTANTS MaxLen, Sim
Accts == {"W", "A", "B"}          \* W may be overdrawn
Zero == [cr |-> 0, dr |-> 0, icr |-> 0, idr |-> 0]
VARIABLES bal, mons, txs, hist, fin
vars == <<bal, mons, txs, hist, fin>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S

Fields == {"debit_balance", "credit_balance", "balance", "inflight_debit_balance", "inflight_credit_balance", "inflight_balance"}
Ops == {">", "<", ">=", "<=", "=", "!="}
SF == IF Sim THEN Fields ELSE {"balance", "inflight_debit_balance"}
SO == IF Sim THEN Ops ELSE {">", "="}
Field(b, f) == CASE f = "debit_balance" -> b.dr [] f = "credit_balance" -> b.cr [] f = "balance" -> b.cr - b.dr
                 [] f = "inflight_debit_balance" -> b.idr [] f = "inflight_credit_balance" -> b.icr [] OTHER -> b.icr - b.idr
Holds(m, b) ==
  LET v == Field(b, m.f) IN
  CASE m.op = ">" -> v > m.t [] m.op = "<" -> v < m.t [] m.op = ">=" -> v >= m.t [] m.op = "<=" -> v <= m.t [] m.op = "=" -> v = m.t [] OTHER -> v # m.t
\* how often each monitor is notified by a posting between s and d that leaves b
Fire(b, s, d) == [i \in DOMAIN mons |-> IF mons[i].live /\ mons[i].b \in {s, d} /\ Holds(mons[i], b[mons[i].b]) THEN 1 ELSE 0]
None == [i \in DOMAIN mons |-> 0]
Avail(b, a) == b[a].cr - b[a].dr - b[a].idr
Fits(s, n, od) == od \/ s = "W" \/ Avail(bal, s) >= n
Log(op, exp) == hist' = Append(hist, [op |-> op, exp |-> exp])

Vals == IF Sim THEN {1, 2, 28, 29, 30, 57, 58, 114, 115, 116} ELSE {29}
Thr(x) == IF Sim THEN {RandomElement({1, 2, 28, 29, 30, 57, 58, 87, 114, 115, 116, 229, 231, -1, -28, -29, -30, -57, -58, -115, -116} \cup
                                     UNION {{Field(bal[a], f) : f \in Fields} : a \in Accts})} ELSE {29, -29}
Prec(x) == IF Sim THEN {RandomElement({1, 1, 29, 2})} ELSE {1}

Create ==
  \E b \in Pick(Accts \cup {"none"}), f \in Pick(SF), op \in Pick(SO \cup {"~"}), p \in Prec(1), n \in (IF Sim THEN Pick({0, 1}) ELSE {0}) : \E t \in Thr(p) :
    LET ok == b # "none" /\ op # "~" /\ t # 0 /\ t % p = 0 IN
    /\ Len(mons) < (IF Sim THEN 8 ELSE 2)
    /\ mons' = IF ok THEN Append(mons, [b |-> b, f |-> f, op |-> op, t |-> t, p |-> p, live |-> TRUE]) ELSE mons
    /\ Log([k |-> "create", b |-> b, f |-> f, op |-> op, t |-> t, p |-> p, n |-> n], [ok |-> ok])
    /\ UNCHANGED <<bal, txs, fin>>
Change ==
  \E i \in Pick(DOMAIN mons), f \in Pick(SF), op \in Pick(SO), same \in Pick({TRUE, TRUE, FALSE}), keep \in Pick({TRUE, FALSE}), n \in (IF Sim THEN Pick({0, 1}) ELSE {0}) :
  \E b \in (IF same THEN {mons[i].b} ELSE Pick(Accts)), p \in (IF keep THEN {mons[i].p} ELSE Prec(2)), t \in Thr(3) :
    /\ t % p = 0
    /\ mons' = IF mons[i].live THEN [mons EXCEPT ![i] = [b |-> b, f |-> f, op |-> op, t |-> t, p |-> p, live |-> TRUE]] ELSE mons
    \* a change that does not name the precision keeps it
    /\ Log([k |-> "change", i |-> i, b |-> b, f |-> f, op |-> op, t |-> t, p |-> p, keep |-> keep, n |-> n], [ok |-> mons[i].live])
    /\ UNCHANGED <<bal, txs, fin>>
Delete ==
  \E i \in Pick(DOMAIN mons), n \in (IF Sim THEN Pick({0, 1}) ELSE {0}) :
    /\ mons' = [mons EXCEPT ![i].live = FALSE]
    /\ Log([k |-> "delete", i |-> i, n |-> n], [ok |-> mons[i].live])
    /\ UNCHANGED <<bal, txs, fin>>
Read ==
  \E i \in Pick(DOMAIN mons), n \in (IF Sim THEN Pick({0, 1}) ELSE {0}) :
    /\ Log([k |-> "read", i |-> i, n |-> n], IF mons[i].live THEN [ok |-> TRUE, b |-> mons[i].b, f |-> mons[i].f, op |-> mons[i].op, t |-> mons[i].t,
                                           of |-> {j \in DOMAIN mons : mons[j].live /\ mons[j].b = mons[i].b}] ELSE [ok |-> FALSE])
    /\ UNCHANGED <<bal, mons, txs, fin>>
Post ==
  \E s \in Pick(Accts), path \in (IF Sim THEN Pick({"skip", "queue", "bulk"}) ELSE {"skip"}), hold \in Pick({FALSE, FALSE, TRUE}), od \in Pick({TRUE, FALSE}), n \in (IF Sim THEN Pick({0, 1}) ELSE {0}) :
  \E d \in Pick(Accts \ {s}), v \in Pick(Vals) :
    LET ok == Fits(s, v, od)
        b == IF hold THEN [bal EXCEPT ![s].idr = @ + v, ![d].icr = @ + v] ELSE [bal EXCEPT ![s].dr = @ + v, ![d].cr = @ + v] IN
    /\ Len(txs) < (IF Sim THEN 12 ELSE 2)
    /\ bal' = IF ok THEN b ELSE bal
    /\ txs' = Append(txs, [s |-> s, d |-> d, left |-> v, st |-> IF ~ok THEN "no" ELSE IF hold THEN "hold" ELSE "done"])
    /\ Log([k |-> "post", i |-> Len(txs) + 1, s |-> s, d |-> d, v |-> v, path |-> path, hold |-> hold, od |-> od \/ s = "W", n |-> n],
           [done |-> ok, fire |-> IF ok THEN Fire(b, s, d) ELSE None])
    /\ UNCHANGED <<mons, fin>>
\* a monitor is made or deleted while the monitors are being looked up for a
\* posting: whether that posting still sees the old ones is open, the next does not
Race ==
  \E d \in Pick({"A", "B"}), v \in Pick(Vals), f \in Pick(SF), op \in Pick(SO), what \in Pick({"create", "delete"}), n \in (IF Sim THEN Pick({0, 1}) ELSE {0}) :
  \E t \in Thr(4), i \in (IF what = "delete" THEN Pick({i \in DOMAIN mons : mons[i].live /\ mons[i].b = d}) ELSE {0}) :
    /\ what = "create" => t # 0 /\ Len(mons) < (IF Sim THEN 8 ELSE 2)
    /\ Len(txs) < (IF Sim THEN 12 ELSE 2)
    /\ bal' = [bal EXCEPT !["W"].dr = @ + v, ![d].cr = @ + v]
    /\ txs' = Append(txs, [s |-> "W", d |-> d, left |-> v, st |-> "done"])
    /\ mons' = IF what = "delete" THEN [mons EXCEPT ![i].live = FALSE] ELSE Append(mons, [b |-> d, f |-> f, op |-> op, t |-> t, p |-> 1, live |-> TRUE])
    /\ Log([k |-> "race", i |-> Len(txs) + 1, d |-> d, v |-> v, what |-> what, mon |-> i, f |-> f, op |-> op, t |-> t, p |-> 1, n |-> n], [done |-> TRUE, ok |-> TRUE])
    /\ UNCHANGED fin
Settle ==
  \E i \in Pick({i \in DOMAIN txs : txs[i].st = "hold"}), how \in Pick({"commit", "void", "part"}), q \in Pick({TRUE, FALSE}), n \in (IF Sim THEN Pick({0, 1}) ELSE {0}) :
  \E v \in (IF how = "part" THEN Pick(1..(txs[i].left - 1)) ELSE {txs[i].left}) :
    LET t == txs[i]
        b == IF how = "void" THEN [bal EXCEPT ![t.s].idr = @ - v, ![t.d].icr = @ - v]
             ELSE [bal EXCEPT ![t.s].idr = @ - v, ![t.s].dr = @ + v, ![t.d].icr = @ - v, ![t.d].cr = @ + v] IN
    /\ bal' = b
    /\ txs' = [txs EXCEPT ![i].left = @ - v, ![i].st = IF how = "part" THEN "hold" ELSE "over"]
    /\ Log([k |-> "settle", i |-> i, how |-> how, v |-> v, q |-> q /\ how = "commit", n |-> n], [done |-> TRUE, fire |-> Fire(b, t.s, t.d)])
    /\ UNCHANGED <<mons, fin>>
Refund ==
  \E i \in Pick({i \in DOMAIN txs : txs[i].st = "done"}), n \in (IF Sim THEN Pick({0, 1}) ELSE {0}) :
    LET t == txs[i]
        b == [bal EXCEPT ![t.d].dr = @ + t.left, ![t.s].cr = @ + t.left] IN
    /\ bal' = b
    /\ txs' = [txs EXCEPT ![i].st = "back"]
    /\ Log([k |-> "refund", i |-> i, n |-> n], [done |-> TRUE, fire |-> Fire(b, t.d, t.s)])
    /\ UNCHANGED <<mons, fin>>

Init == bal = [a \in Accts |-> Zero] /\ mons = <<>> /\ txs = <<>> /\ hist = <<>> /\ fin = FALSE
Next ==
  \/ Len(hist) < MaxLen /\ (Create \/ Create \/ Create \/ Change \/ Change \/ Delete \/ Read \/ Post \/ Post \/ Post \/ Post \/ Post \/ Post \/ Settle \/ Settle \/ Refund \/ Race)
  \/ ~fin /\ Sim /\ Len(hist) >= MaxLen /\ fin' = TRUE /\ PrintT(<<"ZZPROG", ToJson(hist)>>) /\ UNCHANGED <<bal, mons, txs, hist>>
Spec == Init /\ [][Next]_vars
Inv ==
  /\ FoldSet(LAMBDA a, s : s + bal[a].cr - bal[a].dr, 0, Accts) = 0
  /\ \A a \in Accts : bal[a].icr >= 0 /\ bal[a].idr >= 0
  \* exactly one notification for a live monitor of a touched balance whose condition holds, none otherwise
  /\ \A k \in DOMAIN hist : "fire" \in DOMAIN hist[k].exp => \A i \in DOMAIN hist[k].exp.fire : hist[k].exp.fire[i] \in {0, 1}
  \* a deleted monitor is silent
  /\ hist # <<>> /\ "fire" \in DOMAIN Last(hist).exp => \A i \in DOMAIN mons : ~mons[i].live => Last(hist).exp.fire[i] = 0
===============================================================================

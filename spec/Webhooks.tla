------------------------------- MODULE Webhooks -------------------------------
(* Notifications.  Every outcome of a transaction (applied, held, voided,     *)
(* rejected), every end of an asynchronous batch and every new ledger,        *)
(* identity and balance makes one notification, however often the work that   *)
(* led to it was tried; work that did not happen makes none.  A notification  *)
(* waits until the receiver accepts it, and every attempt carries the event,  *)
(* the record and a signature over body and time.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json
CONSTANTS MaxLen, Sim, Signed
Accts == {"W", "A", "B"}          \* W may be overdrawn
Zero == [cr |-> 0, dr |-> 0, icr |-> 0, idr |-> 0]
VARIABLES bal, txs, pend, sent, ents, hist, fin
vars == <<bal, txs, pend, sent, ents, hist, fin>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Avail(b, a) == b[a].cr - b[a].dr - b[a].idr
Fits(b, s, v) == s = "W" \/ Avail(b, s) >= v
Move(b, s, d, v, hold) == IF hold THEN [b EXCEPT ![s].idr = @ + v, ![d].icr = @ + v] ELSE [b EXCEPT ![s].dr = @ + v, ![d].cr = @ + v]
Vals == IF Sim THEN 1..9 ELSE {2}

\* a bag of notifications, named by event and number of the record
N(ev, i) == ev \o ":" \o ToString(i)
Add(bag, ks) == FoldLeft(LAMBDA g, k : [x \in DOMAIN g \cup {k} |-> (IF x \in DOMAIN g THEN g[x] ELSE 0) + (IF x = k THEN 1 ELSE 0)], bag, ks)
Empty == [x \in {} |-> 0]
Log(op, exp) == hist' = Append(hist, [op |-> op, exp |-> exp])
\* an action that makes the notifications ks
Emit(op, ks, exp) == /\ pend' = Add(pend, ks) /\ Log(op, exp @@ [new |-> Add(Empty, ks)])

Tx(s, d, v, hold, ok) == [s |-> s, d |-> d, left |-> v, st |-> IF ~ok THEN "no" ELSE IF hold THEN "hold" ELSE "done"]
Event(hold) == IF hold THEN "transaction.inflight" ELSE "transaction.applied"
Meta(x) == IF Sim THEN RandomElement({"", "", "html", "deep", "long"}) ELSE ""

Direct ==
  \E s \in Pick(Accts), path \in (IF Sim THEN Pick({"skip", "skip", "bulk", "dry", "crash", "named"}) ELSE {"skip", "crash"}), hold \in Pick({FALSE, FALSE, TRUE}), v \in Pick(Vals) :
  \E d \in Pick(Accts \ {s}), meta \in {Meta(1)} :
    LET ok == Fits(bal, s, v) /\ path \notin {"dry", "crash"}
        i == Len(txs) + 1
        n == IF ok THEN <<N(Event(hold), i)>> ELSE <<>> IN
    /\ Len(txs) < (IF Sim THEN 14 ELSE 3)
    /\ path # "named"
    /\ bal' = IF ok THEN Move(bal, s, d, v, hold) ELSE bal
    /\ txs' = Append(txs, Tx(s, d, v, hold, ok))
    /\ Emit([k |-> "post", i |-> i, s |-> s, d |-> d, v |-> v, path |-> path, hold |-> hold, meta |-> meta], n, [done |-> ok \/ (path = "dry")])
    /\ UNCHANGED <<sent, ents, fin>>
\* queued transactions of one source are served in order; a failed attempt is
\* tried again and a served one may be delivered once more
Step(x, l) ==
  LET ok == Fits(x.b, x.s, l.v) IN
  [x EXCEPT !.b = IF ok THEN Move(@, x.s, l.d, l.v, x.hold) ELSE @,
            !.t = Append(@, Tx(x.s, l.d, l.v, x.hold, ok)),
            !.n = Append(@, N(IF ok THEN Event(x.hold) ELSE "transaction.rejected", Len(x.t) + 1))]
Queued ==
  \E s \in Pick(Accts), n \in (IF Sim THEN Pick(1..3) ELSE {1}), hold \in Pick({FALSE, FALSE, TRUE}), fault \in (IF Sim THEN Pick({"", "", "write", "commit"}) ELSE {""}), twice \in Pick({TRUE, FALSE}) :
  \E d \in [1..n -> Accts \ {s}] : \E v \in (IF Sim THEN {[j \in 1..n |-> RandomElement(Vals)]} ELSE {[j \in 1..n |-> 2]}) :
    LET legs == [j \in 1..n |-> [d |-> IF Sim THEN d[1] ELSE d[j], v |-> v[j]]]
        r == FoldLeft(Step, [b |-> bal, t |-> txs, n |-> <<>>, s |-> s, hold |-> hold], legs) IN
    /\ Len(txs) + n <= (IF Sim THEN 14 ELSE 3)
    /\ bal' = r.b /\ txs' = r.t
    /\ Emit([k |-> "queue", i |-> Len(txs) + 1, s |-> s, legs |-> legs, hold |-> hold, fault |-> fault, twice |-> twice, meta |-> Meta(2)], r.n, Empty)
    /\ UNCHANGED <<sent, ents, fin>>
\* a batch in the background: W pays d, then s pays e; a failed atomic batch is undone
Batch ==
  \E s \in Pick({"W", "A", "B"}), d \in Pick({"A", "B"}), v \in Pick(Vals), u \in Pick(Vals), hold \in Pick({TRUE, FALSE}), atomic \in Pick({TRUE, FALSE}) :
  \E e \in Pick(Accts \ {s}) :
    LET b1 == Move(bal, "W", d, v, hold)
        ok == Fits(b1, s, u)
        i == Len(txs) + 1
        t1 == Tx("W", d, v, hold, TRUE)
        ns == <<N(Event(hold), i)>> \o
              (IF ok THEN <<N(Event(hold), i + 1), N(IF hold THEN "bulk_transaction.inflight" ELSE "bulk_transaction.applied", i)>>
               ELSE (IF atomic THEN <<N(IF hold THEN "transaction.void" ELSE "transaction.applied", i)>> ELSE <<>>) \o <<N("bulk_transaction.failed", i)>>) IN
    /\ Sim /\ Len(txs) < 13
    /\ bal' = IF ok THEN Move(b1, s, e, u, hold) ELSE IF ~atomic THEN b1 ELSE IF hold THEN bal ELSE Move(b1, d, "W", v, FALSE)
    /\ txs' = txs \o <<IF ~ok /\ atomic THEN [t1 EXCEPT !.st = "over"] ELSE t1, Tx(s, e, u, hold, ok)>>
    /\ Emit([k |-> "batch", i |-> i, s |-> s, d |-> d, e |-> e, v |-> v, u |-> u, hold |-> hold, atomic |-> atomic], ns, Empty)
    /\ UNCHANGED <<sent, ents, fin>>
Settle ==
  \E i \in Pick({i \in DOMAIN txs : txs[i].st = "hold"}), how \in Pick({"commit", "void", "part"}), q \in Pick({TRUE, FALSE}), crash \in (IF Sim THEN Pick({FALSE, FALSE, FALSE, TRUE}) ELSE {FALSE}) :
  \E v \in (IF how = "part" THEN Pick(1..(txs[i].left - 1)) ELSE {txs[i].left}) :
    LET t == txs[i]
        qq == q /\ how = "commit"
        c == crash /\ ~qq IN
    /\ bal' = IF c THEN bal ELSE IF how = "void" THEN [bal EXCEPT ![t.s].idr = @ - v, ![t.d].icr = @ - v]
              ELSE [bal EXCEPT ![t.s].idr = @ - v, ![t.s].dr = @ + v, ![t.d].icr = @ - v, ![t.d].cr = @ + v]
    /\ txs' = IF c THEN txs ELSE [txs EXCEPT ![i].left = @ - v, ![i].st = IF how = "part" THEN "hold" ELSE "over"]
    /\ Emit([k |-> "settle", i |-> i, how |-> how, v |-> v, q |-> qq, crash |-> c], IF c THEN <<>> ELSE <<N(IF how = "void" THEN "transaction.void" ELSE "transaction.applied", i)>>, [done |-> ~c])
    /\ UNCHANGED <<sent, ents, fin>>
Refund ==
  \E i \in Pick({i \in DOMAIN txs : txs[i].st = "done"}) :
    LET t == txs[i] IN
    /\ bal' = Move(bal, t.d, t.s, t.left, FALSE)
    /\ txs' = [txs EXCEPT ![i].st = "over"]
    /\ Emit([k |-> "refund", i |-> i], <<N("transaction.applied", i)>>, [done |-> TRUE])
    /\ UNCHANGED <<sent, ents, fin>>
Make ==
  \E what \in Pick({"ledger", "identity", "balance", "named", "none"}) :
    LET i == ents + 1 IN
    /\ ents < (IF Sim THEN 6 ELSE 1)
    /\ ents' = i
    /\ Emit([k |-> "make", i |-> i, what |-> what], CASE what = "none" -> <<>> [] what = "named" -> <<N("balance.created", 100 + i)>> [] OTHER -> <<N(what \o ".created", 100 + i)>>, Empty)
    /\ UNCHANGED <<bal, txs, sent, fin>>
\* one attempt to deliver a notification
Codes == {200, 201, 202, 204, 299, 304, 400, 401, 404, 408, 410, 429, 500, 502, 503, 0}
Deliver ==
  \E key \in Pick({k \in DOMAIN pend : pend[k] > 0}), code \in Pick(IF Sim THEN Codes ELSE {200, 500}) :
    LET ok == code >= 200 /\ code < 300 IN
    /\ pend' = IF ok THEN [pend EXCEPT ![key] = @ - 1] ELSE pend
    /\ sent' = IF ok THEN Add(sent, <<key>>) ELSE sent
    /\ Log([k |-> "deliver", key |-> key, code |-> code], [again |-> ~ok, body |-> TRUE, signed |-> Signed])
    /\ UNCHANGED <<bal, txs, ents, fin>>

Init == bal = [a \in Accts |-> Zero] /\ txs = <<>> /\ pend = Empty /\ sent = Empty /\ ents = 0 /\ hist = <<>> /\ fin = FALSE
Next ==
  \/ Len(hist) < MaxLen /\ (Direct \/ Direct \/ Direct \/ Queued \/ Queued \/ Queued \/ Batch \/ Settle \/ Settle \/ Settle \/ Refund \/ Make \/ Deliver \/ Deliver \/ Deliver)
  \/ ~fin /\ Sim /\ Len(hist) >= MaxLen /\ fin' = TRUE /\ PrintT(<<"ZZPROG", ToJson(hist)>>) /\ UNCHANGED <<bal, txs, pend, sent, ents, hist>>
Spec == Init /\ [][Next]_vars

\* as many notifications as outcomes: nothing accepted twice, nothing lost
Total(bag) == FoldSet(LAMBDA k, s : s + bag[k], 0, DOMAIN bag)
Outcomes == FoldLeft(LAMBDA s, h : s + (IF "new" \in DOMAIN h.exp THEN Total(h.exp.new) ELSE 0), 0, hist)
Inv == /\ Total(pend) + Total(sent) = Outcomes
       /\ FoldSet(LAMBDA a, s : s + bal[a].cr - bal[a].dr, 0, Accts) = 0
       \* an outcome is in the ledger: every transaction that exists has been announced
       /\ \A i \in DOMAIN txs : txs[i].st \in {"hold", "done"} =>
            LET g == Add(pend, <<>>) IN \E ev \in {"transaction.applied", "transaction.inflight"} : N(ev, i) \in DOMAIN g \cup DOMAIN sent
===============================================================================

----------------------------- MODULE LedgerSeq ----------------------------
(* The ledger as its users see it, one request at a time: which requests   *)
(* are accepted and what they do.  In simulation mode TLC draws random     *)
(* programs with their expected answers and balances, which the harness    *)
(* replays on the real API; in exhaustive mode the invariants below are    *)
(* checked on every program up to MaxLen.                                  *)
EXTENDS LedgerCore, SequencesExt, FiniteSetsExt, Json

CONSTANTS MaxLen,     \* requests per program
          Names,      \* ordinary balances
          Amts, Lims, \* amounts and overdraft limits used
          Feat,       \* which requests may occur
          Fifo,       \* the worker serves in submission order
          QCheck,     \* queued amounts count as spent
          Sim         \* TRUE: draw parameters at random

W == "@W"             \* the outside world, always overdrawn freely
Bals == Names \cup {W}

VARIABLES fin,    \* program complete (simulation only)
          bals,   \* six amounts per balance
          txs,    \* label -> accepted transaction
          refs,   \* references taken
          aq,     \* commits and voids waiting for the inflight worker
          queue,  \* labels waiting for the worker, in order
          hist    \* program so far with expectations
vars == <<bals, txs, refs, queue, aq, hist, fin>>

Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
On(f) == f \in Feat
L == "o" \o ToString(Len(hist) + 1)
Fresh == "r" \o ToString(Len(hist) + 1)

ErrCls(od, lim) == FundsErr(od, lim)

\* what is queued against (side "src") or for (side "dst") a balance
Queued(T, n, side) == FoldSet(LAMBDA l, a : a + (IF T[l].st = "QUEUED" /\ T[l][side] = n THEN T[l].amt ELSE 0), 0, DOMAIN T)
QueuedMap == [n \in Bals |-> [d |-> Queued(txs', n, "src"), c |-> Queued(txs', n, "dst")]]
\* the funds rule; self: the part of the queued amount that is the entry itself
Funds(B, T, src, amt, od, lim, self) ==
  FundsOKQ(B[src], amt, od, lim, IF QCheck THEN Queued(T, src, "src") - self ELSE 0)

\* record a request with the expected answer and resulting state
Log(op, ok, cls) ==
  hist' = Append(hist, [op |-> op, ok |-> ok, cls |-> cls, bals |-> bals', q |-> Len(queue'), queued |-> QueuedMap])

Req(k) == [l |-> L, k |-> k]

TxRec(src, dst, amt, infl, st) ==
  [src |-> src, dst |-> dst, amt |-> amt, infl |-> infl, st |-> st,
   settled |-> 0, voided |-> FALSE, refunded |-> FALSE, od |-> "none", lim |-> 0, refof |-> "", crefund |-> 0]

Pairs == {p \in Bals \X Bals : p[1] # p[2]}
ODs(src) == IF src = W THEN {"unl"} ELSE {"none"} \cup (IF On("unl") THEN {"unl"} ELSE {})
                                          \cup (IF On("lim") THEN {"lim"} ELSE {})
Refs == {Fresh} \cup (IF On("dup") THEN refs ELSE {})

Op(k, src, dst, amt, ref, od, lim, infl, skip, rep) ==
  [l |-> L, k |-> k, src |-> src, dst |-> dst, amt |-> amt, ref |-> ref, od |-> od, lim |-> lim,
   infl |-> infl, skip |-> skip, rep |-> rep]

\* ---- direct transaction
Direct ==
  /\ On("skip")
  /\ \E p \in Pick(Pairs), amt \in Pick(Amts), ref \in Pick(Refs), infl \in Pick(IF On("inflight") THEN BOOLEAN ELSE {FALSE}),
        rep \in Pick({"a", "p"}) :
     \E od \in Pick(ODs(p[1])) :
     \E lim \in Pick(IF od = "lim" THEN Lims ELSE {0}) :
      LET op == Op("txn", p[1], p[2], amt, ref, od, lim, infl, TRUE, rep)
          ok == Funds(bals, txs, p[1], amt, od, lim, 0)
      IN /\ queue' = queue
         /\ IF ref \in refs
              THEN UNCHANGED <<bals, txs, refs>> /\ Log(op, FALSE, "dup")
            ELSE IF ~ok
              THEN UNCHANGED <<bals, txs, refs>> /\ Log(op, FALSE, ErrCls(od, lim))
            ELSE /\ bals' = Effect(bals, IF infl THEN "hold" ELSE "post", p[1], p[2], amt)
                 /\ txs' = (L :> TxRec(p[1], p[2], amt, infl, IF infl THEN "INFLIGHT" ELSE "APPLIED")) @@ txs
                 /\ refs' = refs \cup {ref}
                 /\ Log(op, TRUE, "ok")

\* ---- queued transaction: accepted now, judged by the worker
Enqueue ==
  /\ On("queue") /\ Len(queue) < 4
  /\ \E p \in Pick(Pairs), amt \in Pick(Amts), ref \in Pick(Refs), infl \in Pick(IF On("inflight") THEN BOOLEAN ELSE {FALSE}),
        rep \in Pick({"a", "p"}) :
     \E od \in Pick(ODs(p[1])) :
     \E lim \in Pick(IF od = "lim" THEN Lims ELSE {0}) :
      LET op == Op("txn", p[1], p[2], amt, ref, od, lim, infl, FALSE, rep)
      IN /\ bals' = bals
         /\ IF ref \in refs
              THEN UNCHANGED <<txs, refs, queue>> /\ Log(op, TRUE, "ok")
            ELSE /\ txs' = (L :> [TxRec(p[1], p[2], amt, infl, "QUEUED") EXCEPT !.od = od, !.lim = lim]) @@ txs
                 /\ refs' = refs \cup {ref}
                 /\ queue' = Append(queue, L)
                 /\ Log(op, TRUE, "ok")

\* the worker judges queued transactions one after another
Serve(acc, l) ==
  LET x == acc.T[l]
      ok == Funds(acc.B, acc.T, x.src, x.amt, x.od, x.lim, x.amt)
  IN IF ok THEN [B |-> Effect(acc.B, IF x.infl THEN "hold" ELSE "post", x.src, x.dst, x.amt),
                 T |-> [acc.T EXCEPT ![l].st = IF x.infl THEN "INFLIGHT" ELSE "APPLIED"]]
           ELSE [B |-> acc.B, T |-> [acc.T EXCEPT ![l].st = "REJECTED"]]

Orders == {[n \in 1..Len(queue) |-> queue[p[n]]] : p \in {f \in [1..Len(queue) -> 1..Len(queue)] :
                                                          \A a, b \in 1..Len(queue) : f[a] = f[b] => a = b}}
Served(ord) == FoldLeft(Serve, [B |-> bals, T |-> txs], ord)
\* Coalescing may serve the waiting ones in another order; where that makes a
\* difference any of the results is right, and the program ends there.
Results == IF Fifo THEN {Served(queue)} ELSE {Served(o) : o \in Orders}

Work ==
  /\ On("queue") /\ queue # <<>>
  /\ LET R == Results
         r == CHOOSE x \in R : TRUE
     IN IF Cardinality(R) = 1
          THEN /\ bals' = r.B /\ txs' = r.T
               /\ queue' = <<>> /\ refs' = refs
               /\ Log(Req("work"), TRUE, "ok")
          ELSE /\ bals' = r.B /\ txs' = r.T /\ queue' = <<>> /\ refs' = refs
               /\ hist' = Append(hist, [op |-> Req("work"), ok |-> TRUE, cls |-> "ok", q |-> 0,
                                        bals |-> [n \in {"@none"} |-> ZeroBal], queued |-> QueuedMap, alts |-> SetToSeq({x.B : x \in R})])

Open == hist # <<>> => ~("alts" \in DOMAIN Last(hist))

\* ---- settle and release
Holds == {l \in DOMAIN txs : txs[l].infl /\ txs[l].st = "INFLIGHT"}
Rem(l) == txs[l].amt - txs[l].settled

Commit ==
  /\ On("commit") /\ Holds # {}
  /\ \E l \in Pick(Holds), amt \in Pick(Amts \cup {0}), rep \in Pick({"a", "p"}), kid \in Pick(BOOLEAN) :
      LET x == txs[l]
          a == IF amt = 0 THEN Rem(l) ELSE amt
          op == [l |-> L, k |-> "commit", tgt |-> l, kid |-> kid, amt |-> amt, skip |-> TRUE, rep |-> rep]
          ok == ~x.voided /\ Rem(l) > 0 /\ a <= Rem(l)
      IN /\ refs' = refs /\ queue' = queue
         /\ IF ok THEN /\ bals' = Effect(bals, "settle", x.src, x.dst, a)
                       /\ txs' = (L :> [TxRec(x.src, x.dst, a, FALSE, "APPLIED") EXCEPT !.refof = l]) @@ [txs EXCEPT ![l].settled = @ + a]
                       /\ Log(op, TRUE, "ok")
                  ELSE /\ UNCHANGED <<bals, txs>>
                       /\ Log(op, FALSE, IF x.voided THEN "voided" ELSE IF Rem(l) = 0 THEN "committed" ELSE "any")

Void ==
  /\ On("void") /\ Holds # {}
  /\ \E l \in Pick(Holds) :
      LET x == txs[l]
          op == [l |-> L, k |-> "void", tgt |-> l, kid |-> TRUE, skip |-> TRUE]
          ok == ~x.voided /\ Rem(l) > 0
      IN /\ refs' = refs /\ queue' = queue
         /\ IF ok THEN /\ bals' = Effect(bals, "release", x.src, x.dst, Rem(l))
                       /\ txs' = [txs EXCEPT ![l].voided = TRUE]
                       /\ Log(op, TRUE, "ok")
                  ELSE /\ UNCHANGED <<bals, txs>>
                       /\ Log(op, FALSE, IF x.voided THEN "voided" ELSE "committed")

\* a hold that is still waiting in the queue cannot be settled or released
Early ==
  /\ On("early")
  /\ LET H == {l \in DOMAIN txs : txs[l].infl /\ txs[l].st = "QUEUED"}
     IN /\ H # {}
        /\ \E l \in Pick(H), k \in Pick({"commit", "void"}), amt \in Pick({0, 1}) :
             /\ UNCHANGED <<bals, txs, refs, queue>>
             /\ Log([l |-> L, k |-> k, tgt |-> l, kid |-> FALSE, amt |-> IF k = "void" THEN 0 ELSE amt, skip |-> TRUE, rep |-> "p"], FALSE, "any")

\* commits and voids through the queue: checked now, done by the worker, one
\* waiting per hold
CanSettle(x, k, a) == /\ ~x.voided /\ x.settled < x.amt
                      /\ k = "commit" => a <= x.amt - x.settled
QSettle ==
  /\ On("qsettle") /\ Holds # {} /\ Len(aq) < 3
  /\ \E l \in Pick(Holds), k \in Pick({"commit", "void"}), amt \in Pick(Amts \cup {0}) :
      LET op == [l |-> L, k |-> k, tgt |-> l, kid |-> TRUE, amt |-> IF k = "void" THEN 0 ELSE amt, skip |-> FALSE, rep |-> "p"]
          ok == CanSettle(txs[l], k, IF k = "void" THEN 0 ELSE amt) /\ ~\E n \in 1..Len(aq) : aq[n].h = l
      IN /\ UNCHANGED <<bals, txs, refs, queue>>
         /\ aq' = IF ok THEN Append(aq, [h |-> l, k |-> k, a |-> IF k = "void" THEN 0 ELSE amt]) ELSE aq
         /\ Log(op, ok, IF ok THEN "ok" ELSE "any")
\* a step of the inflight worker; what no longer fits is dropped
AServe(acc, e) ==
  LET x == acc.T[e.h]
      a == IF e.k = "void" \/ e.a = 0 THEN x.amt - x.settled ELSE e.a
  IN IF ~CanSettle(x, e.k, a) THEN acc
     ELSE IF e.k = "void" THEN [B |-> Effect(acc.B, "release", x.src, x.dst, a), T |-> [acc.T EXCEPT ![e.h].voided = TRUE]]
     ELSE [B |-> Effect(acc.B, "settle", x.src, x.dst, a), T |-> [acc.T EXCEPT ![e.h].settled = @ + a]]
AWork ==
  /\ aq # <<>>
  /\ LET r == FoldLeft(AServe, [B |-> bals, T |-> txs], aq) IN bals' = r.B /\ txs' = r.T
  /\ aq' = <<>> /\ UNCHANGED <<refs, queue>>
  /\ Log(Req("inflwork"), TRUE, "ok")

\* ---- refund an applied transaction (direct, served, or a committed part)
Refundable == {l \in DOMAIN txs : txs[l].st = "APPLIED"}
Refund ==
  /\ On("refund") /\ Refundable # {}
  /\ \E l \in Pick(Refundable), skip \in Pick(IF On("queue") /\ Len(queue) < 4 THEN BOOLEAN ELSE {TRUE}) :
      LET x == txs[l]
          op == [l |-> L, k |-> "refund", tgt |-> l, skip |-> skip]
      IN /\ refs' = refs
         /\ IF x.refunded THEN UNCHANGED <<bals, txs, queue>> /\ Log(op, FALSE, "refunded")
            ELSE IF skip
              THEN /\ bals' = Effect(bals, "post", x.dst, x.src, x.amt)
                   /\ txs' = (L :> TxRec(x.dst, x.src, x.amt, FALSE, "APPLIED")) @@ [txs EXCEPT ![l].refunded = TRUE]
                   /\ queue' = queue
                   /\ Log(op, TRUE, "ok")
            ELSE /\ bals' = bals
                 /\ txs' = (L :> [TxRec(x.dst, x.src, x.amt, FALSE, "QUEUED") EXCEPT !.od = "unl"]) @@ [txs EXCEPT ![l].refunded = TRUE]
                 /\ queue' = Append(queue, L)
                 /\ Log(op, TRUE, "ok")

\* ---- bulk request, processed directly
Members == {<<p, a, o>> : p \in Pairs, a \in Amts, o \in {"none", "unl"}}
RandMember == <<RandomElement(Pairs), RandomElement(Amts), "none">>
BulkLists == IF Sim THEN {[n \in 1..RandomElement(1..3) |-> RandMember]}
             ELSE {<<a, b>> : a \in Members, b \in Members}
\* fold: stop at the first member that cannot be applied
BServe(acc, m) ==
  IF acc.fail THEN acc
  ELSE LET od == IF m[1][1] = W THEN "unl" ELSE m[3]
           ok == FundsOK(acc.B[m[1][1]], m[2], od, 0)
       IN IF ok THEN [acc EXCEPT !.B = Effect(acc.B, IF acc.infl THEN "hold" ELSE "post", m[1][1], m[1][2], m[2]), !.n = @ + 1]
                ELSE [acc EXCEPT !.fail = TRUE]
BUndo(infl, B, ms) ==
  FoldLeft(LAMBDA b, m : IF infl THEN Effect(b, "release", m[1][1], m[1][2], m[2])
                                 ELSE Effect(b, "post", m[1][2], m[1][1], m[2]), B, ms)
Bulk ==
  /\ On("bulk") /\ queue = <<>>
  /\ \E ms \in BulkLists, atom \in Pick(BOOLEAN), infl \in Pick(IF On("inflight") THEN BOOLEAN ELSE {FALSE}),
        dup \in Pick(IF On("dup") /\ refs # {} THEN {FALSE, FALSE, TRUE} ELSE {FALSE}) :
     \E dref \in Pick(IF dup THEN refs ELSE {""}) :
      LET sub == [n \in 1..Len(ms) |->
                    [l |-> L \o "m" \o ToString(n), k |-> "txn", src |-> ms[n][1][1], dst |-> ms[n][1][2], amt |-> ms[n][2],
                     ref |-> IF dup /\ n = Len(ms) THEN dref ELSE Fresh \o "m" \o ToString(n),
                     od |-> IF ms[n][1][1] = W THEN "unl" ELSE ms[n][3], lim |-> 0, infl |-> infl, skip |-> TRUE, rep |-> "p"]]
          op == [l |-> L, k |-> "bulk", sub |-> sub, atom |-> atom, infl |-> infl, skip |-> TRUE]
          body == IF dup THEN SubSeq(ms, 1, Len(ms) - 1) ELSE ms
          r == FoldLeft(BServe, [B |-> bals, n |-> 0, fail |-> FALSE, infl |-> infl], body)
          failed == r.fail \/ dup
          done == SubSeq(ms, 1, r.n)
          newrefs == {sub[n].ref : n \in 1..r.n}
      IN /\ queue' = queue
         /\ refs' = refs \cup newrefs
         /\ txs' = IF failed /\ atom THEN txs
                   ELSE [l \in {sub[n].l : n \in 1..r.n} |->
                           LET n == CHOOSE n \in 1..r.n : sub[n].l = l
                           IN [TxRec(ms[n][1][1], ms[n][1][2], ms[n][2], infl, "NOID") EXCEPT !.od = "none"]] @@ txs
         /\ bals' = IF failed /\ atom THEN BUndo(infl, r.B, done) ELSE r.B
         /\ Log(op, ~failed, IF failed THEN "any" ELSE "ok")

Init == /\ bals = [n \in Bals |-> ZeroBal]
        /\ txs = [l \in {} |-> 0]
        /\ refs = {} /\ queue = <<>> /\ aq = <<>> /\ hist = <<>> /\ fin = FALSE

Step == /\ Len(hist) < MaxLen /\ Open
        /\ fin' = FALSE
        /\ \/ (Direct \/ Enqueue \/ Work \/ Commit \/ Early \/ Void \/ Refund \/ Bulk) /\ aq' = aq
           \/ QSettle \/ AWork

\* in simulation the finished program is handed to the harness
Finish == /\ Sim /\ ~fin /\ (Len(hist) = MaxLen \/ ~Open)
          /\ fin' = TRUE
          /\ PrintT(<<"ZZPROG", ToJson(hist)>>)
          /\ UNCHANGED <<bals, txs, refs, queue, aq, hist>>

Next == Step \/ Finish

Spec == Init /\ [][Next]_vars

\* ---- what every program must satisfy
Conservation == FoldSet(LAMBDA n, a : a + bals[n].b, 0, Bals) = 0
             /\ FoldSet(LAMBDA n, a : a + bals[n].ib, 0, Bals) = 0
Equation == \A n \in Bals : WellFormed(bals[n])
HoldsBounded == \A l \in DOMAIN txs : txs[l].settled <= txs[l].amt
InflightIsOpenHolds ==
   \A n \in Names : bals[n].id = FoldSet(LAMBDA l, a : a + (IF txs[l].src = n /\ txs[l].infl /\ txs[l].st \in {"INFLIGHT", "NOID"}
                                          /\ ~txs[l].voided THEN txs[l].amt - txs[l].settled ELSE 0), 0, DOMAIN txs)
Inv == Conservation /\ Equation /\ HoldsBounded /\ InflightIsOpenHolds
===========================================================================

------------------------------ MODULE Ledger ------------------------------
(* Design of posting: any number of processes work on shared balances with *)
(* a lock that may expire at any moment, a database that commits a journal *)
(* entry together with the balances it changes, and processes that may die *)
(* anywhere and be asked again.  Each process performs one request.        *)
(* The Use* constants switch single guards off; the invariants must then   *)
(* fail (see the check runner), which shows what each guard is for.        *)
EXTENDS LedgerCore, SequencesExt, FiniteSetsExt

CONSTANTS Scn,         \* which requests compete
          Expiries,    \* how often a lock may expire under its holder
          Crashes,     \* how often a process may die
          UseLock, UseVersion, UseRef, UseRecheck

P(s, d, a, r, od, lim) == [k |-> "post", src |-> s, dst |-> d, amt |-> a, ref |-> r, od |-> od, lim |-> lim, tgt |-> ""]
H(s, d, a, r)  == [P(s, d, a, r, "none", 0) EXCEPT !.k = "hold"]
C(t, a) == [k |-> "settle", src |-> "", dst |-> "", amt |-> a, ref |-> "", od |-> "unl", lim |-> 0, tgt |-> t]
X(t)    == [C(t, 0) EXCEPT !.k = "release"]
R(t)    == [C(t, 0) EXCEPT !.k = "refund"]

\* competing requests, by process, on top of: A has 3, B has 1, holds h (A->B 2
\* of 2) and g (A->B 1), and an applied posting p (A->B 1) that can be refunded
Scenarios ==
  [spend  |-> <<P("A", "B", 2, "r1", "none", 0), P("A", "C", 2, "r2", "none", 0), P("C", "A", 1, "r3", "lim", 1)>>,
   ref    |-> <<P("A", "B", 1, "r1", "none", 0), P("A", "B", 1, "r1", "none", 0), P("C", "B", 1, "r1", "unl", 0)>>,
   hold   |-> <<H("A", "B", 2, "r1"), P("A", "C", 2, "r2", "none", 0), C("h", 1)>>,
   settle |-> <<C("h", 2), C("h", 1), C("g", 1)>>,
   void   |-> <<C("h", 1), X("h"), X("h")>>,
   refund |-> <<R("p"), R("p"), P("B", "A", 2, "r1", "none", 0)>>]

Ops == Scenarios[Scn]
Procs == DOMAIN Ops
Accts == {"A", "B", "C"}

VARIABLES bals, vers,  \* balances and their versions
          txs,         \* committed entries: id -> entry
          lock,        \* lock key -> holder
          pc, loc,     \* per process: next step, what it has read
          ack,         \* what its caller was told
          exp, cr, bad
vars == <<bals, vers, txs, lock, pc, loc, ack, exp, cr, bad>>

Entry(k, s, d, a, ref, par) == [k |-> k, src |-> s, dst |-> d, amt |-> a, ref |-> ref, par |-> par]
Tx0 == ("h" :> Entry("hold", "A", "B", 2, "h", "")) @@ ("g" :> Entry("hold", "A", "B", 1, "g", ""))
       @@ ("p" :> Entry("post", "A", "B", 1, "p", ""))
B0 == LET z == [n \in Accts |-> ZeroBal]
          f == [z EXCEPT !["A"] = Credit(@, 7), !["C"] = Debit(@, 7)]
      IN Effect(Effect(Effect(f, "hold", "A", "B", 2), "hold", "A", "B", 1), "post", "A", "B", 1)

Empty == [hold |-> "", rem |-> 0, amt |-> 0, b |-> [n \in {} |-> 0], v |-> [n \in {} |-> 0]]
Init == /\ bals = B0 /\ vers = [n \in Accts |-> 1] /\ txs = Tx0
        /\ lock = [x \in {} |-> 0]
        /\ pc = [p \in Procs |-> "start"] /\ loc = [p \in Procs |-> Empty]
        /\ ack = [p \in Procs |-> ""] /\ exp = 0 /\ cr = 0 /\ bad = {}

Settled(T, h)  == FoldSet(LAMBDA i, a : a + T[i].amt, 0, {i \in DOMAIN T : T[i].par = h /\ T[i].k = "settle"})
Voided(T, h)   == \E i \in DOMAIN T : T[i].par = h /\ T[i].k = "release"
Rem(T, h)      == T[h].amt - Settled(T, h)
Refunded(T, t) == \E i \in DOMAIN T : T[i].ref = t \o "_refund"

Two(p) == Ops[p].k \in {"settle", "release", "refund"}   \* also takes a lock of its own
ActKey(p) == "act:" \o Ops[p].tgt
Src(p) == IF Ops[p].k \in {"settle", "release"} THEN txs[Ops[p].tgt].src
          ELSE IF Ops[p].k = "refund" THEN txs[Ops[p].tgt].dst ELSE Ops[p].src
Dst(p) == IF Ops[p].k \in {"settle", "release"} THEN txs[Ops[p].tgt].dst
          ELSE IF Ops[p].k = "refund" THEN txs[Ops[p].tgt].src ELSE Ops[p].dst
Kind(p) == IF Ops[p].k = "refund" THEN "post" ELSE Ops[p].k
Ref(p) == IF Ops[p].k = "refund" THEN Ops[p].tgt \o "_refund" ELSE Ops[p].ref
Keys(p) == {Src(p), Dst(p)}

Go(p, s) == pc' = [pc EXCEPT ![p] = s]
Free(K) == K \cap DOMAIN lock = {}
Take(K, p) == lock' = [x \in K |-> p] @@ lock
Drop(p) == lock' = [x \in {y \in DOMAIN lock : lock[y] # p} |-> lock[x]]
Refuse(p) == /\ Go(p, "done") /\ Drop(p)
             /\ ack' = [ack EXCEPT ![p] = "no"]
             /\ UNCHANGED <<bals, vers, txs, loc, exp, cr, bad>>

Start(p) == /\ pc[p] = "start"
            /\ IF Two(p)
                 THEN \/ /\ ~UseLock \/ Free({ActKey(p)})
                         /\ IF UseLock THEN Take({ActKey(p)}, p) ELSE lock' = lock
                         /\ Go(p, "check") /\ UNCHANGED <<bals, vers, txs, loc, ack, exp, cr, bad>>
                      \/ UseLock /\ ~Free({ActKey(p)}) /\ Refuse(p)
                 ELSE Go(p, "lock") /\ UNCHANGED <<bals, vers, txs, lock, loc, ack, exp, cr, bad>>

\* what is left of the hold, or whether the transaction was refunded already
Check(p) ==
  /\ pc[p] = "check"
  /\ LET t == Ops[p].tgt
         a == IF Ops[p].amt = 0 THEN Rem(txs, t) ELSE Ops[p].amt
     IN IF Ops[p].k = "refund"
          THEN IF Refunded(txs, t) THEN Refuse(p)
               ELSE /\ loc' = [loc EXCEPT ![p].amt = txs[t].amt] /\ Go(p, "lock")
                    /\ UNCHANGED <<bals, vers, txs, lock, ack, exp, cr, bad>>
        ELSE IF Voided(txs, t) \/ Rem(txs, t) = 0 \/ a > Rem(txs, t) THEN Refuse(p)
               ELSE /\ loc' = [loc EXCEPT ![p].amt = a] /\ Go(p, "lock")
                    /\ UNCHANGED <<bals, vers, txs, lock, ack, exp, cr, bad>>

Lock(p) == /\ pc[p] = "lock"
           /\ \/ /\ ~UseLock \/ Free(Keys(p))
                 /\ IF UseLock THEN Take(Keys(p), p) ELSE lock' = lock
                 /\ Go(p, "ref") /\ UNCHANGED <<bals, vers, txs, loc, ack, exp, cr, bad>>
              \/ UseLock /\ ~Free(Keys(p)) /\ Refuse(p)     \* waited too long

RefCheck(p) == /\ pc[p] = "ref"
               /\ IF Ref(p) # "" /\ \E i \in DOMAIN txs : txs[i].ref = Ref(p) THEN Refuse(p)
                  ELSE Go(p, "read") /\ UNCHANGED <<bals, vers, txs, lock, loc, ack, exp, cr, bad>>

Read(p) == /\ pc[p] = "read"
           /\ loc' = [loc EXCEPT ![p].b = bals, ![p].v = vers]
           /\ Go(p, "again") /\ UNCHANGED <<bals, vers, txs, lock, ack, exp, cr, bad>>

\* judge: funds on what was read; for a hold once more what is left of it
Again(p) ==
  /\ pc[p] = "again"
  /\ LET t == Ops[p].tgt
         amt == IF Two(p) THEN loc[p].amt ELSE Ops[p].amt
         ok == /\ Kind(p) \in {"post", "hold"} /\ Ops[p].k # "refund" =>
                      FundsOK(loc[p].b[Src(p)], amt, Ops[p].od, Ops[p].lim)
               /\ UseRecheck /\ Kind(p) \in {"settle", "release"} =>
                      /\ ~Voided(txs, t) /\ amt <= Rem(txs, t)
                      /\ Kind(p) = "release" => amt = Rem(txs, t)
               \* inflight amounts never go below zero
               /\ Kind(p) \in {"settle", "release"} => loc[p].b[Src(p)].id >= amt /\ loc[p].b[Dst(p)].ic >= amt
     IN IF ok THEN Go(p, "commit") /\ UNCHANGED <<bals, vers, txs, lock, loc, ack, exp, cr, bad>>
              ELSE Refuse(p)

\* one database transaction: entry, balances, versions
Commit(p) ==
  /\ pc[p] = "commit"
  /\ LET amt == IF Two(p) THEN loc[p].amt ELSE Ops[p].amt
         t == Ops[p].tgt
         okv == UseVersion => \A n \in Keys(p) : vers[n] = loc[p].v[n]
         okr == UseRef /\ Ref(p) # "" => ~\E i \in DOMAIN txs : txs[i].ref = Ref(p)
         nb == Effect(loc[p].b, Kind(p), Src(p), Dst(p), amt)
         id == "t" \o ToString(p) \o "." \o ToString(Cardinality(DOMAIN txs))
     IN IF ~(okv /\ okr) THEN Refuse(p)
        ELSE /\ bals' = [n \in Accts |-> IF n \in Keys(p) THEN nb[n] ELSE bals[n]]
             /\ vers' = [n \in Accts |-> IF n \in Keys(p) THEN loc[p].v[n] + 1 ELSE vers[n]]
             /\ txs' = (id :> Entry(Kind(p), Src(p), Dst(p), amt, Ref(p), t)) @@ txs
             /\ bad' = bad
                 \cup (IF \E n \in Keys(p) : bals[n] # loc[p].b[n] THEN {"stale"} ELSE {})
                 \cup (IF Kind(p) \in {"post", "hold"} /\ Ops[p].k # "refund" /\ ~FundsOK(bals[Src(p)], amt, Ops[p].od, Ops[p].lim) THEN {"overspend"} ELSE {})
             /\ Go(p, "ack") /\ UNCHANGED <<lock, loc, ack, exp, cr>>

Ack(p) == /\ pc[p] = "ack" /\ Go(p, "done") /\ Drop(p)
          /\ ack' = [ack EXCEPT ![p] = "yes"]
          /\ UNCHANGED <<bals, vers, txs, loc, exp, cr, bad>>

\* a lock runs out under its holder
Expire == /\ exp < Expiries /\ DOMAIN lock # {} /\ exp' = exp + 1
          /\ \E k \in DOMAIN lock : lock' = [x \in DOMAIN lock \ {k} |-> lock[x]]
          /\ UNCHANGED <<bals, vers, txs, pc, loc, ack, cr, bad>>
\* a process dies; its locks run out and the request is made again
Crash(p) == /\ cr < Crashes /\ pc[p] \notin {"start", "done"} /\ cr' = cr + 1
            /\ Drop(p) /\ Go(p, "start") /\ loc' = [loc EXCEPT ![p] = Empty]
            /\ UNCHANGED <<bals, vers, txs, ack, exp, bad>>

Next == \/ \E p \in Procs : Start(p) \/ Check(p) \/ Lock(p) \/ RefCheck(p) \/ Read(p) \/ Again(p) \/ Commit(p) \/ Ack(p) \/ Crash(p)
        \/ Expire
Spec == Init /\ [][Next]_vars /\ WF_vars(\E p \in Procs : Start(p) \/ Check(p) \/ Lock(p) \/ RefCheck(p) \/ Read(p) \/ Again(p) \/ Commit(p) \/ Ack(p))

\* ---- guarantees
Equation == \A n \in Accts : WellFormed(bals[n])
Conservation == /\ FoldSet(LAMBDA n, a : a + bals[n].b, 0, Accts) = 0
                /\ FoldSet(LAMBDA n, a : a + bals[n].ib, 0, Accts) = 0
\* balances are exactly what the journal says
Journal == \A n \in Accts :
   LET S(k, f) == FoldSet(LAMBDA i, a : a + txs[i].amt, 0, {i \in DOMAIN txs : txs[i].k = k /\ txs[i][f] = n})
       r == IF n = "A" THEN 7 ELSE 0
       w == IF n = "C" THEN 7 ELSE 0
   IN /\ bals[n].c = r + S("post", "dst") + S("settle", "dst")
      /\ bals[n].d = w + S("post", "src") + S("settle", "src")
      /\ bals[n].ic = S("hold", "dst") - S("settle", "dst") - S("release", "dst")
      /\ bals[n].id = S("hold", "src") - S("settle", "src") - S("release", "src")
RefOnce == \A i, j \in DOMAIN txs : i # j /\ txs[i].ref # "" => txs[i].ref # txs[j].ref
HoldBound == \A h \in {"h", "g"} :
   /\ Settled(txs, h) <= txs[h].amt
   /\ Cardinality({i \in DOMAIN txs : txs[i].par = h /\ txs[i].k = "release"}) <= 1
   /\ \A i \in DOMAIN txs : txs[i].par = h /\ txs[i].k = "release" => Settled(txs, h) + txs[i].amt = txs[h].amt
RefundOnce == Cardinality({i \in DOMAIN txs : txs[i].ref = "p_refund"}) <= 1
NoBad == bad = {}
\* without crashes, being told yes means exactly one entry and no means none
Answered == cr = 0 => \A p \in Procs :
   LET mine == {i \in DOMAIN txs : \E n \in 0..20 : i = "t" \o ToString(p) \o "." \o ToString(n)}
   IN /\ ack[p] = "yes" => Cardinality(mine) = 1
      /\ ack[p] = "no" => mine = {}
Finished == <>(\A p \in Procs : pc[p] = "done")
===========================================================================

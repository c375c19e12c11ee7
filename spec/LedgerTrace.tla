---------------------------- MODULE LedgerTrace ---------------------------
(* Replays recorded executions of the real code against the ledger         *)
(* specification.  Each trace is the sequence of what the code committed   *)
(* (rows inserted and balances written by one SQL transaction), what each  *)
(* caller was told, and the final state of the database.  Every commit     *)
(* must be the effect of the entries it contains, applied to the state the *)
(* earlier commits left, and must be allowed in that state.  A broken rule *)
(* adds its tag to `viol'; Watch selects the tags that count as violations *)
(* of the property under check.                                            *)
EXTENDS LedgerCore, SequencesExt, FiniteSetsExt, Json, IOUtils

CONSTANT Watch
Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, i, bals, vers, txs, moved, viol
vars == <<t, i, bals, vers, txs, moved, viol>>

Ev == Traces[t].ev
Empty == [x \in {} |-> 0]

Init == /\ t \in 1..Len(Traces)
        /\ i = 1
        /\ bals = Empty /\ vers = Empty /\ txs = Empty
        /\ moved = {}          \* operations that committed a movement of money
        /\ viol = {}

Six(u) == [b |-> u.b, c |-> u.c, d |-> u.d, ib |-> u.ib, ic |-> u.ic, id |-> u.id]

\* What kind of entry x is, given the entries recorded so far.
Kind(T, x) ==
    CASE x.st = "APPLIED" /\ x.par \in DOMAIN T /\ T[x.par].st = "INFLIGHT"
                          /\ x.src = T[x.par].src /\ x.dst = T[x.par].dst -> "settle"
      [] x.st = "VOID" /\ x.par \in DOMAIN T /\ T[x.par].st = "INFLIGHT" -> "release"
      [] x.st = "APPLIED" -> "post"
      [] x.st = "INFLIGHT" -> "hold"
      [] x.st \in {"QUEUED", "SCHEDULED", "REJECTED"} -> "none"
      [] OTHER -> "bad"

Kids(T, p) == {k \in DOMAIN T : T[k].par = p}
SumAmt(T, S) == FoldSet(LAMBDA k, a : a + T[k].amt, 0, S)
Settled(T, h)  == SumAmt(T, {k \in Kids(T, h) : T[k].kind = "settle"})
Released(T, h) == {k \in Kids(T, h) : T[k].kind = "release"}
Outcomes(T, p) == {k \in Kids(T, p) : T[k].st \in {"APPLIED", "INFLIGHT", "REJECTED"}
                                       /\ T[k].src = T[p].src /\ T[k].dst = T[p].dst}
IsRefundOf(x, p) == x.src = p.dst /\ x.dst = p.src /\ p.st \in {"APPLIED", "VOID"}

\* Tags for one entry, judged in the state before it.
Judge(B, T, x) ==
  LET k == Kind(T, x)
      p == IF x.par \in DOMAIN T THEN T[x.par] ELSE x
      haspar == x.par \in DOMAIN T
  IN  (IF k = "bad" THEN {"badstatus"} ELSE {})
   \cup (IF x.id \in DOMAIN T THEN {"dupid"} ELSE {})
   \cup (IF k # "none" /\ x.amt <= 0 THEN {"badamount"} ELSE {})
   \cup (IF k \in {"post", "hold"} /\ x.src \in DOMAIN B
            /\ ~FundsOK(B[x.src], x.amt, x.od, x.lim) THEN {"overspend"} ELSE {})
   \cup (IF k \in {"post", "hold"} /\ \E y \in DOMAIN T : T[y].uref = x.uref
            /\ T[y].kind \in {"post", "hold"} THEN {"dupref"} ELSE {})
   \cup (IF k \in {"settle", "release"} /\ Released(T, x.par) # {} THEN {"aftervoid"} ELSE {})
   \cup (IF k = "settle" /\ Settled(T, x.par) + x.amt > p.amt THEN {"overcommit"} ELSE {})
   \cup (IF k = "release" /\ Settled(T, x.par) + x.amt # p.amt THEN {"voidamount"} ELSE {})
   \cup (IF haspar /\ IsRefundOf(x, p) /\ x.st # "REJECTED"
            /\ \E y \in Kids(T, x.par) : IsRefundOf(T[y], p) /\ T[y].st # "REJECTED"
            THEN {"dblrefund"} ELSE {})
   \cup (IF haspar /\ IsRefundOf(x, p) /\ x.amt # p.amt THEN {"refundamount"} ELSE {})
   \cup (IF haspar /\ p.st \in {"QUEUED", "SCHEDULED"} /\ x.st \in {"APPLIED", "INFLIGHT", "REJECTED"}
            /\ Outcomes(T, x.par) # {} THEN {"twooutcomes"} ELSE {})
   \cup (IF haspar /\ p.st \in {"QUEUED", "SCHEDULED"} /\ x.st \in {"APPLIED", "INFLIGHT"}
            /\ ~(x.src = p.src /\ x.dst = p.dst /\ x.amt = p.amt /\ x.cur = p.cur /\ x.eff = p.eff) THEN {"childdiffers"} ELSE {})
   \cup (IF x.st = "REJECTED" /\ ~x.rej THEN {"noreason"} ELSE {})

WithKind(x, k) == [f \in DOMAIN x \cup {"kind"} |-> IF f = "kind" THEN k ELSE x[f]]
Step1(acc, x) ==
  LET k == Kind(acc.T, x)
      known == x.src \in DOMAIN acc.B /\ x.dst \in DOMAIN acc.B
  IN [B |-> IF known THEN Effect(acc.B, k, x.src, x.dst, x.amt) ELSE acc.B,
      T |-> (x.id :> WithKind(x, k)) @@ acc.T,
      V |-> acc.V \cup Judge(acc.B, acc.T, x) \cup (IF Moves(k) /\ ~known THEN {"effect"} ELSE {}),
      M |-> acc.M \/ Moves(k)]

Range2(s) == {s[n] : n \in 1..Len(s)}

Commit(e) ==
  LET nbn == {u.bal : u \in Range2(e.nb)}
      NB  == [n \in nbn |-> Six(CHOOSE u \in Range2(e.nb) : u.bal = n)]
      NV  == [n \in nbn |-> (CHOOSE u \in Range2(e.nb) : u.bal = n).v]
      B0  == NB @@ bals
      V0  == NV @@ vers
      r   == FoldLeft(Step1, [B |-> B0, T |-> txs, V |-> {}, M |-> FALSE], e.ins)
      upn == {u.bal : u \in Range2(e.upd)}
      UP  == [n \in upn |-> CHOOSE u \in Range2(e.upd) : u.bal = n]
      changed == {n \in DOMAIN B0 : r.B[n] # B0[n]}
      bad == (IF \E n \in upn : n \notin DOMAIN B0 \/ r.B[n] # Six(UP[n]) THEN {"effect"} ELSE {})
         \cup (IF changed \ upn # {} THEN {"effect"} ELSE {})
         \cup (IF upn # {} /\ ~r.M THEN {"orphan"} ELSE {})
         \cup (IF \E n \in upn : ~WellFormed(Six(UP[n])) THEN {"equation"} ELSE {})
         \cup (IF \E n \in upn : n \in DOMAIN V0 /\ (UP[n].pv # V0[n] \/ UP[n].v <= V0[n]) THEN {"version"} ELSE {})
         \cup (IF \E n \in nbn : n \in DOMAIN bals THEN {"dupbalance"} ELSE {})
         \cup (IF \E n \in nbn : NB[n] # ZeroBal THEN {"notempty"} ELSE {})
         \cup (IF "txchange" \in Range2(e.oth) \/ "transactions:delete" \in Range2(e.oth)
                  \/ "balances:delete" \in Range2(e.oth) THEN {"mutated"} ELSE {})
  IN /\ bals' = [n \in DOMAIN B0 |-> IF n \in upn THEN Six(UP[n]) ELSE B0[n]]
     /\ vers' = [n \in DOMAIN V0 |-> IF n \in upn THEN UP[n].v ELSE V0[n]]
     /\ txs' = r.T
     /\ moved' = IF r.M THEN moved \cup {e.op} ELSE moved
     /\ viol' = viol \cup r.V \cup bad

\* A caller that was refused must not have moved money; one that was told of
\* a direct success must find its entry.
Ret(e) ==
  /\ viol' = viol
        \cup (IF ~e.ok /\ e.op \in moved /\ e.k \in {"txn", "commit", "void", "refund"} THEN {"erreffect"} ELSE {})
        \cup (IF e.ok /\ e.k \in {"txn", "refund"} /\ e.st \in {"APPLIED", "INFLIGHT"}
                 /\ (e.id \notin DOMAIN txs \/ txs[e.id].st # e.st) THEN {"acklost"} ELSE {})
        \cup (IF e.ok /\ e.k \in {"commit", "void"} /\ e.st \in {"APPLIED", "VOID"}
                 /\ (e.id \notin DOMAIN txs \/ ~Moves(txs[e.id].kind)) THEN {"acklost"} ELSE {})
  /\ UNCHANGED <<bals, vers, txs, moved>>

SumField(e, cur, f) == FoldLeft(LAMBDA a, u : IF u.cur = cur THEN a + u[f] ELSE a, 0, e.bals)

\* Expected facts the driver attached: exact number of postings per
\* reference, and final balances.
ExpectOK(e) ==
   /\ \A r \in Range2(e.expect.posted) :
        Cardinality({x \in DOMAIN txs : txs[x].uref = r.ref /\ txs[x].kind \in {"post", "hold"}}) = r.n
   /\ \A r \in Range2(e.expect.bals) :
        r.bal \in DOMAIN bals /\ bals[r.bal].b = r.b /\ bals[r.bal].ib = r.ib

Final(e) ==
  LET same == /\ {u.bal : u \in Range2(e.bals)} = DOMAIN bals
              /\ \A u \in Range2(e.bals) : bals[u.bal] = Six(u)
              /\ {x.id : x \in Range2(e.txs)} = DOMAIN txs
              /\ \A x \in Range2(e.txs) : x.st = txs[x.id].st /\ x.amt = txs[x.id].amt
      zero == \A cur \in {u.cur : u \in Range2(e.bals)} :
                 SumField(e, cur, "b") = 0 /\ SumField(e, cur, "ib") = 0
      open == {q \in DOMAIN txs : txs[q].st \in {"QUEUED", "SCHEDULED"} /\ Outcomes(txs, q) = {}}
  IN /\ viol' = viol \cup (IF ~same THEN {"unaccounted"} ELSE {})
                     \cup (IF ~zero THEN {"sum"} ELSE {})
                     \cup (IF e.drained /\ open # {} THEN {"nooutcome"} ELSE {})
                     \cup (IF "expect" \in DOMAIN e /\ ~ExpectOK(e) THEN {"expect"} ELSE {})
     /\ UNCHANGED <<bals, vers, txs, moved>>

Next ==
  /\ i <= Len(Ev)
  /\ i' = i + 1
  /\ t' = t
  /\ LET e == Ev[i] IN
       CASE e.e = "commit" -> Commit(e)
         [] e.e = "ret"    -> Ret(e)
         [] e.e = "final"  -> Final(e)
         [] OTHER -> UNCHANGED <<bals, vers, txs, moved, viol>>
  /\ IF (viol' \ viol) \cap Watch # {}
       THEN PrintT(<<"ZZVIOL", ToJson([id |-> Traces[t].id, n |-> t, at |-> i, tags |-> viol' \ viol])>>) ELSE TRUE
  /\ IF i = Len(Ev) THEN PrintT(<<"ZZEND", Traces[t].id>>) ELSE TRUE

Spec == Init /\ [][Next]_vars
NoViolation == viol \cap Watch = {}
===========================================================================

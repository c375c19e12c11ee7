---------------------------- MODULE LedgerCore ----------------------------
(* The arithmetic of the ledger: what a balance is and what each kind of   *)
(* journal entry does to the two balances it names.  Shared by the design  *)
(* model (Ledger), the behaviour generator (LedgerSeq) and the monitor of  *)
(* recorded executions (LedgerTrace).                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* settled: balance b = credits c - debits d; inflight: ib = ic - id *)
ZeroBal == [b |-> 0, c |-> 0, d |-> 0, ib |-> 0, ic |-> 0, id |-> 0]

WellFormed(x) == /\ x.b = x.c - x.d
                 /\ x.ib = x.ic - x.id
                 /\ x.c >= 0 /\ x.d >= 0 /\ x.ic >= 0 /\ x.id >= 0

(* What may still be spent: settled money not yet promised by a hold (and, *)
(* where queued checks are on, q already queued against the balance).      *)
AvailQ(x, q) == x.b - x.id - q
Avail(x)     == AvailQ(x, 0)

(* The funds rule.  od: "none" | "unl" | "lim" *)
FundsOKQ(x, amt, od, lim, q) ==
    \/ od = "unl"
    \/ AvailQ(x, q) >= amt
    \/ od = "lim" /\ lim > 0 /\ AvailQ(x, q) - amt >= -lim
FundsOK(x, amt, od, lim) == FundsOKQ(x, amt, od, lim, 0)
FundsErr(od, lim) == IF od = "lim" /\ lim > 0 THEN "limit" ELSE "funds"

Debit(x, a)    == [x EXCEPT !.d = @ + a, !.b = @ - a]
Credit(x, a)   == [x EXCEPT !.c = @ + a, !.b = @ + a]
HoldOut(x, a)  == [x EXCEPT !.id = @ + a, !.ib = @ - a]
HoldIn(x, a)   == [x EXCEPT !.ic = @ + a, !.ib = @ + a]
SettleOut(x, a) == [x EXCEPT !.id = @ - a, !.ib = @ + a, !.d = @ + a, !.b = @ - a]
SettleIn(x, a)  == [x EXCEPT !.ic = @ - a, !.ib = @ - a, !.c = @ + a, !.b = @ + a]
ReleaseOut(x, a) == [x EXCEPT !.id = @ - a, !.ib = @ + a]
ReleaseIn(x, a)  == [x EXCEPT !.ic = @ - a, !.ib = @ - a]

(* effect of one entry of the given kind on the map of balances *)
Effect(bals, kind, s, t, a) ==
    CASE kind = "post"    -> [bals EXCEPT ![s] = Debit(@, a), ![t] = Credit(@, a)]
      [] kind = "hold"    -> [bals EXCEPT ![s] = HoldOut(@, a), ![t] = HoldIn(@, a)]
      [] kind = "settle"  -> [bals EXCEPT ![s] = SettleOut(@, a), ![t] = SettleIn(@, a)]
      [] kind = "release" -> [bals EXCEPT ![s] = ReleaseOut(@, a), ![t] = ReleaseIn(@, a)]
      [] OTHER -> bals

Moves(kind) == kind \in {"post", "hold", "settle", "release"}
===========================================================================

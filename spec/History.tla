------------------------------ MODULE History ------------------------------
(* The balance at a past instant is the sum of what was applied and          *)
(* effective at or before that instant, from snapshots or from the source    *)
(* transactions. Time is counted in tens per step: what happens in step j    *)
(* happens at 10j-5, mark j is the instant 10j right after it.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json
CONSTANTS MaxLen, Sim,
          Late      \* also ask where snapshots are known to miss late entries
Bals == {"A", "B", "C"}
Far == 900000       \* an instant years ahead
VARIABLES applied,  \* what moved money: [s, d, n, eff, rec]
          queued,   \* accepted and not served: [s, d, n, eff, hold, l]
          holds,    \* label -> [s, d, left]
          days,     \* number of midnights so far
          snaps,    \* balance -> snapshots [at, day]
          hist, fin
vars == <<applied, queued, holds, days, snaps, hist, fin>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Now == 10 * (Len(hist) + 1) - 5
L == "t" \o ToString(Len(hist) + 1)
Pairs(x) == Pick({p \in Bals \X Bals : p[1] # p[2]})
Amt(x) == IF Sim THEN {RandomElement(1..50)} ELSE {3}
None == [x \in {} |-> 0]
Log(op, exp) == hist' = Append(hist, [op |-> op, exp |-> exp])
\* effective now, at an earlier mark, right before or after one, or years ahead
Effs(x) == IF ~Sim THEN {Now, Far} \cup {10 * j : j \in DOMAIN hist}
        ELSE LET w == RandomElement(1..8) m == IF hist = <<>> THEN 0 ELSE RandomElement(1..Len(hist)) IN
             IF ~Late \/ w <= 4 \/ m = 0 THEN {Now} ELSE IF w = 8 THEN {Far} ELSE {10 * m + RandomElement({-1, 0, 1})}
\* the money of a backdated entry is fine as long as no snapshot lies between
EffsOk(x) == IF Sim /\ ~Late /\ hist # <<>> /\ RandomElement(1..3) = 1
             THEN LET m == RandomElement(1..Len(hist)) lastSnap == Max({0} \cup UNION {{s.at : s \in Range(snaps[b])} : b \in Bals}) IN
                  IF 10 * m - 1 > lastSnap THEN {10 * m + RandomElement({-1, 0, 1})} ELSE {Now}
             ELSE Effs(x)
EffTxt(e) == IF e = Now THEN "now" ELSE "given"
Post == \E p \in Pairs(hist), n \in Amt(hist), e \in EffsOk(hist), ch \in Pick({"direct", "direct", "bulk", "queue", "queue", "hold", "queuehold"}) :
  LET q == ch \in {"queue", "queuehold"} h == ch \in {"hold", "queuehold"} IN
  /\ applied' = IF q \/ h THEN applied ELSE Append(applied, [s |-> p[1], d |-> p[2], n |-> n, eff |-> e, rec |-> Now])
  /\ queued' = IF q THEN Append(queued, [s |-> p[1], d |-> p[2], n |-> n, eff |-> e, hold |-> h, l |-> L]) ELSE queued
  /\ holds' = IF h /\ ~q THEN (L :> [s |-> p[1], d |-> p[2], left |-> n]) @@ holds ELSE holds
  /\ UNCHANGED <<days, snaps>>
  /\ Log([k |-> "post", l |-> L, s |-> p[1], d |-> p[2], n |-> n, eff |-> IF e = Now THEN -1 ELSE e, ch |-> ch], [ok |-> TRUE])
Work == /\ queued # <<>> /\ queued' = <<>>
        /\ applied' = applied \o [j \in DOMAIN SelectSeq(queued, LAMBDA q : ~q.hold) |-> LET q == SelectSeq(queued, LAMBDA q : ~q.hold)[j] IN [s |-> q.s, d |-> q.d, n |-> q.n, eff |-> q.eff, rec |-> Now]]
        /\ holds' = [l \in {q.l : q \in {q \in Range(queued) : q.hold}} |-> LET q == CHOOSE q \in Range(queued) : q.l = l IN [s |-> q.s, d |-> q.d, left |-> q.n]] @@ holds
        /\ UNCHANGED <<days, snaps>> /\ Log([k |-> "work"], None)
Settle == \E l \in Pick(DOMAIN holds), how \in Pick({"commit", "commit", "void"}), skip \in Pick(BOOLEAN), n \in Amt(hist) :
  LET h == holds[l] all == how = "void" \/ n >= h.left m == IF all THEN h.left ELSE n IN
  /\ applied' = IF how = "void" THEN applied ELSE Append(applied, [s |-> h.s, d |-> h.d, n |-> m, eff |-> Now, rec |-> Now])
  /\ holds' = IF all THEN [x \in DOMAIN holds \ {l} |-> holds[x]] ELSE [holds EXCEPT ![l].left = @ - n]
  /\ UNCHANGED <<queued, days, snaps>>
  /\ Log([k |-> "settle", tgt |-> l, how |-> how, n |-> IF all THEN 0 ELSE n, skip |-> skip], [ok |-> TRUE])
\* nothing happens: refused, or rejected by the worker
Reject == \E p \in Pairs(hist), skip \in Pick(BOOLEAN) :
  /\ UNCHANGED <<applied, queued, holds, days, snaps>>
  /\ queued = <<>>
  /\ Log([k |-> "reject", d |-> p[2], skip |-> skip], None)
Refund == \E j \in Pick({j \in DOMAIN hist : hist[j].op.k = "post" /\ hist[j].op.ch = "direct" /\ \A i \in DOMAIN hist : ~(hist[i].op.k = "refund" /\ hist[i].op.tgt = hist[j].op.l)}), skip \in Pick(BOOLEAN) :
  LET o == hist[j].op IN
  /\ queued = <<>>
  /\ applied' = Append(applied, [s |-> o.d, d |-> o.s, n |-> o.n, eff |-> Now, rec |-> Now])
  /\ UNCHANGED <<queued, holds, days, snaps>>
  /\ Log([k |-> "refund", tgt |-> o.l, skip |-> skip], [ok |-> TRUE])
Midnight == days' = days + 1 /\ UNCHANGED <<applied, queued, holds, snaps>> /\ Log([k |-> "midnight"], None)
Snapshot == /\ Late \/ ((\A q \in Range(queued) : q.hold) /\ \A a \in Range(applied) : a.eff < Now)
            /\ snaps' = [b \in Bals |-> IF \E s \in Range(snaps[b]) : s.day = days THEN snaps[b] ELSE Append(snaps[b], [at |-> Now, day |-> days])]
            /\ UNCHANGED <<applied, queued, holds, days>>
            /\ \E n \in Pick({1, 2, 1000}) : Log([k |-> "snapshot", batch |-> n], None)
Sum(b, c, P(_)) == FoldLeft(LAMBDA x, a : x + IF P(a) /\ a[c] = b THEN a.n ELSE 0, 0, applied)
Right(b, c, t) == Sum(b, c, LAMBDA a : a.eff <= t)
Base(b, t) == LET S == {s.at : s \in {s \in Range(snaps[b]) : s.at <= t}} IN IF S = {} THEN 0 ELSE Max(S)
\* what comes out when snapshots are trusted to hold exactly what was effective by then
Trust(b, c, t) == LET at == Base(b, t) IN IF at = 0 THEN Right(b, c, t) ELSE Sum(b, c, LAMBDA a : a.rec < at) + Sum(b, c, LAMBDA a : a.eff > at /\ a.eff <= t)
Ask == \E b \in Pick(Bals), t \in Pick({0, Now, Far, Far - 1, Far + 1} \cup UNION {{10 * j - 1, 10 * j, 10 * j + 1} : j \in DOMAIN hist}), src \in Pick({TRUE, FALSE, FALSE}), z \in Pick(BOOLEAN) :
  LET late == ~src /\ (Trust(b, "s", t) # Right(b, "s", t) \/ Trust(b, "d", t) # Right(b, "d", t)) IN
  /\ late => Late
  /\ UNCHANGED <<applied, queued, holds, days, snaps>>
  /\ Log([k |-> IF late THEN "at-late" ELSE "at", b |-> b, t |-> IF t = Now THEN -1 ELSE t, src |-> src, z |-> z,
          credit |-> Right(b, "d", t), debit |-> Right(b, "s", t), credit2 |-> Trust(b, "d", t), debit2 |-> Trust(b, "s", t)],
         [ok |-> TRUE, exact |-> TRUE, explained |-> TRUE])
LateAsks == {bt \in Bals \X ({10 * j : j \in DOMAIN hist} \cup {Far + 1}) : \E c \in {"s", "d"} : Trust(bt[1], c, bt[2]) # Right(bt[1], c, bt[2])}
AskLate == /\ Late /\ Sim /\ Len(hist) >= MaxLen - 3
           /\ \E bt \in Pick(LateAsks) : LET b == bt[1] t == bt[2] IN
              /\ UNCHANGED <<applied, queued, holds, days, snaps>>
              /\ Log([k |-> "at-late", b |-> b, t |-> t, src |-> FALSE, z |-> FALSE,
                      credit |-> Right(b, "d", t), debit |-> Right(b, "s", t), credit2 |-> Trust(b, "d", t), debit2 |-> Trust(b, "s", t)],
                     [ok |-> TRUE, exact |-> TRUE, explained |-> TRUE])
Init == applied = <<>> /\ queued = <<>> /\ holds = None /\ days = 0 /\ snaps = [b \in Bals |-> <<>>] /\ hist = <<>> /\ fin = FALSE
Next == \/ Len(hist) < MaxLen /\ fin' = fin /\ (Post \/ Post \/ Post \/ Work \/ (holds # None /\ Settle) \/ Reject \/ Refund \/ Midnight \/ Snapshot \/ Snapshot \/ Ask \/ Ask \/ Ask \/ AskLate)
        \/ /\ Sim /\ ~fin /\ Len(hist) = MaxLen /\ fin' = TRUE
           /\ PrintT(<<"ZZPROG", ToJson(hist)>>) /\ UNCHANGED <<applied, queued, holds, days, snaps, hist>>
Spec == Init /\ [][Next]_vars
\* as long as nothing is late, snapshots and sources agree at every instant
Agree == Late \/ \A b \in Bals, c \in {"s", "d"} : \A t \in {10 * j : j \in 0..Len(hist)} : Trust(b, c, t) = Right(b, c, t)
\* one snapshot a day
Daily == \A b \in Bals : \A i, j \in DOMAIN snaps[b] : i # j => snaps[b][i].day # snaps[b][j].day
=============================================================================

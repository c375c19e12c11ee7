-------------------------------- MODULE Dates --------------------------------
(* Work that is due at a time: transactions scheduled for later, holds that   *)
(* expire, holds that are committed on a date.  Time is counted in units; a   *)
(* date is a unit that nothing else is due at.  Each transaction is requested *)
(* on one of the paths, with the queue served at once, late, or with every    *)
(* task delivered twice or interrupted and redelivered.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json
CONSTANTS MaxLen, Sim
Accts == IF Sim THEN {"A", "B", "C", "D"} ELSE {"A", "B", "C"}
Zero == [cr |-> 0, dr |-> 0, icr |-> 0, idr |-> 0]
None == 9999
VARIABLES now, txs, bal, hist, fin
vars == <<now, txs, bal, hist, fin>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S

\* ---- effects on balances
Post(b, l) == [b EXCEPT ![l.s].dr = @ + l.n, ![l.d].cr = @ + l.n]
Hold(b, l) == [b EXCEPT ![l.s].idr = @ + l.n, ![l.d].icr = @ + l.n]
Settle(b, l) == [b EXCEPT ![l.s].idr = @ - l.n, ![l.s].dr = @ + l.n, ![l.d].icr = @ - l.n, ![l.d].cr = @ + l.n]
Free(b, l) == [b EXCEPT ![l.s].idr = @ - l.n, ![l.d].icr = @ - l.n]
Avail(b, a) == b[a].cr - b[a].dr - b[a].idr
Fits(b, t) == t.od \/ \A i \in DOMAIN t.legs : Avail(b, t.legs[i].s) >= t.legs[i].n
Legs(b, t, F(_, _)) == FoldLeft(F, b, t.legs)

\* ---- what falls due: [due, i, w]; what is in the queue without a date first
Due(t, i, lim, serve) ==
  (IF t.st = "wait" /\ serve /\ (t.sched = None \/ t.sched <= lim) THEN {[due |-> IF t.sched \in {None, 0} THEN -1 ELSE t.sched, i |-> i, w |-> "post"]} ELSE {})
  \cup (IF t.exp <= lim THEN {[due |-> t.exp, i |-> i, w |-> "exp"]} ELSE {})
  \cup (IF t.com <= lim THEN {[due |-> t.com, i |-> i, w |-> "com"]} ELSE {})
Events(T, lim, serve) == UNION {Due(T[i], i, lim, serve) : i \in DOMAIN T}
Before(x, y) == x.due < y.due \/ (x.due = y.due /\ x.i < y.i) \/ (x.due = y.due /\ x.i = y.i /\ x.w = "post")
Apply(s, t, i) ==
  IF ~Fits(s.b, t) THEN [s EXCEPT !.T[i].st = "rejected"]
  ELSE [s EXCEPT !.T[i].st = IF t.hold THEN "open" ELSE "posted", !.b = IF t.hold THEN Legs(s.b, t, Hold) ELSE Legs(s.b, t, Post)]
Do(s, e) ==
  LET t == s.T[e.i] IN
  IF e.w = "post" THEN Apply(s, t, e.i)
  \* a hold that has not been taken yet is settled when it has
  ELSE IF t.st = "wait" THEN s
  ELSE LET over == IF e.w = "exp" THEN [s EXCEPT !.T[e.i].exp = None] ELSE [s EXCEPT !.T[e.i].com = None] IN
       IF t.st # "open" THEN over
       ELSE [over EXCEPT !.T[e.i].st = "closed", !.b = IF e.w = "exp" THEN Legs(s.b, t, Free) ELSE Legs(s.b, t, Settle)]
Run(T, b, lim, serve) == FoldLeft(Do, [T |-> T, b |-> b], SetToSortSeq(Events(T, lim, serve), Before))

\* ---- dates that are still free
Used == UNION {{txs[i].sched0, txs[i].exp0, txs[i].com0} : i \in DOMAIN txs}
Ahead(x) == {u \in (now + 1)..(now + (IF Sim THEN 12 ELSE 3)) : u \notin Used}
Later(x, u) == {y \in Ahead(x) : y > u}
Seen == [bal |-> [a \in {a \in Accts : bal'[a] # Zero} |-> bal'[a]]]
Log(op, exp) == hist' = Append(hist, [op |-> op, exp |-> exp @@ Seen])

Paths == {"skip", "queue", "split", "splitqueue", "bulk", "bulkqueue"}
Queued(p) == p \in {"queue", "splitqueue", "bulkqueue"}
Amt(x) == IF Sim THEN {RandomElement(1..9)} ELSE {2}
Request ==
  \E p \in (IF Sim THEN Pick(Paths) ELSE {"skip", "queue"}), s \in (IF Sim THEN Pick(Accts) ELSE {"A"}), n \in Amt(hist), hold \in Pick({TRUE, TRUE, FALSE}), od \in Pick({TRUE, TRUE, FALSE}),
     w \in Pick({"", "", "sched", "past"}), z \in (IF Sim THEN Pick(0..4) ELSE {0}), f \in Pick({"exp", "com", "both", "none"}) :
  \E d \in (IF Sim THEN Pick(Accts \ {s}) ELSE {"B"}) : \E d2 \in (IF Sim THEN Pick(Accts \ {s, d}) ELSE {"C"}) :
  \E sched \in (IF w = "sched" THEN Pick(Ahead(1)) ELSE IF w = "past" THEN {0} ELSE {None}) :
  \E exp \in (IF hold /\ f \in {"exp", "both"} THEN Pick(Later(2, IF sched = None THEN 0 ELSE sched)) ELSE {None}) :
  \E com \in (IF hold /\ f \in {"com", "both"} THEN Pick(Later(3, IF sched = None THEN 0 ELSE sched) \ {exp}) ELSE {None}) :
  LET split == p \in {"split", "splitqueue"}
      legs == IF split THEN <<[s |-> s, d |-> d, n |-> n], [s |-> s, d |-> d2, n |-> n]>> ELSE <<[s |-> s, d |-> d, n |-> n]>>
      late == Queued(p) \/ sched # None
      t == [p |-> p, legs |-> legs, hold |-> hold, od |-> od \/ split \/ (late /\ w # "sched"), sched |-> sched, exp |-> exp, com |-> com, sched0 |-> sched, exp0 |-> exp, com0 |-> com, st |-> "wait"]
      r == Apply([T |-> Append(txs, t), b |-> bal], t, Len(txs) + 1)
      refuse == ~late /\ r.T[Len(txs) + 1].st = "rejected"
  IN \* what is scheduled for the past and skips the queue may be posted at once or when the queue is served
     /\ ~(w = "past" /\ ~Queued(p))
     /\ Len(txs) < 6
     /\ IF refuse THEN UNCHANGED <<txs, bal>>
        ELSE IF late THEN txs' = Append(txs, t) /\ UNCHANGED bal
        ELSE txs' = r.T /\ bal' = r.b
     /\ UNCHANGED now
     /\ Log([k |-> "post", i |-> Len(txs) + 1, p |-> p, legs |-> legs, hold |-> hold, od |-> t.od, sched |-> sched, exp |-> exp, com |-> com, zone |-> z], [ok |-> ~refuse])

\* time passes and the workers serve what is due; or only those of the dated
\* work do, and the queue is served later
Tick == \E dt \in (IF Sim THEN Pick({1, 1, 2, 3, 5}) ELSE {1, 2}), serve \in Pick({TRUE, TRUE, FALSE}), how \in (IF Sim THEN Pick({"", "", "twice", "fault", "die"}) ELSE {""}), at \in (IF Sim THEN Pick(1..14) ELSE {1}) :
  LET lim == now + dt r == Run(txs, bal, lim, serve) IN
  /\ txs # <<>>
  /\ serve \/ \A i \in DOMAIN txs : txs[i].st # "wait" \/ txs[i].sched = None
  /\ now' = lim /\ txs' = r.T /\ bal' = r.b
  /\ Log([k |-> "tick", to |-> lim, serve |-> serve, how |-> how, at |-> at], [x \in {} |-> 0])
\* someone settles the hold by hand, before or after it falls due
ByHand == \E i \in Pick({i \in DOMAIN txs : txs[i].hold}), what \in Pick({"commit", "void"}) :
  LET t == txs[i] open == t.st = "open" IN
  /\ t.st # "wait"
  /\ txs' = IF open THEN [txs EXCEPT ![i].st = "closed"] ELSE txs
  /\ bal' = IF ~open THEN bal ELSE IF what = "commit" THEN Legs(bal, t, Settle) ELSE Legs(bal, t, Free)
  /\ UNCHANGED now
  /\ Log([k |-> what, i |-> i], IF open THEN [ok |-> TRUE] ELSE [x \in {} |-> 0])
\* part of it
Part == \E i \in Pick({i \in DOMAIN txs : txs[i].st = "open" /\ Len(txs[i].legs) = 1 /\ txs[i].legs[1].n > 1}) :
  \E m \in Pick(1..(txs[i].legs[1].n - 1)) :
  LET l == txs[i].legs[1] IN
  /\ txs' = [txs EXCEPT ![i].legs[1].n = @ - m]
  /\ bal' = Settle(bal, [l EXCEPT !.n = m])
  /\ UNCHANGED now
  /\ Log([k |-> "part", i |-> i, n |-> m], [ok |-> TRUE])

\* recovery posts queued work that was left behind; what waits for its time was not
Recover ==
  LET left == {i \in DOMAIN txs : txs[i].st = "wait" /\ txs[i].sched = None}
      r == FoldLeft(Do, [T |-> txs, b |-> bal], SetToSortSeq({[due |-> -1, i |-> i, w |-> "post"] : i \in left}, Before)) IN
  txs # <<>> /\ txs' = r.T /\ bal' = r.b /\ UNCHANGED now /\ Log([k |-> "recover"], [x \in {} |-> 0])

Init == now = 1 /\ txs = <<>> /\ bal = [a \in Accts |-> Zero] /\ hist = <<>> /\ fin = FALSE
Next == \/ Len(hist) < MaxLen /\ fin' = fin /\ (Request \/ Request \/ Tick \/ Tick \/ Tick \/ ByHand \/ Part \/ Recover)
        \/ /\ Sim /\ ~fin /\ Len(hist) = MaxLen /\ fin' = TRUE
           /\ PrintT(<<"ZZPROG", ToJson(hist)>>) /\ UNCHANGED <<now, txs, bal, hist>>
Spec == Init /\ [][Next]_vars

\* nothing is done before its time, what is due is done, what is closed holds nothing
NotBefore == \A i \in DOMAIN txs : txs[i].sched0 # None /\ txs[i].sched0 > now => txs[i].st = "wait"
\* (what the queue served late is released when the dated work is next looked at)
Released == \A i \in DOMAIN txs : (txs[i].exp0 <= now \/ txs[i].com0 <= now) => txs[i].st # "open" \/ txs[i].exp # None \/ txs[i].com # None
Open(a, F(_)) == FoldSet(LAMBDA i, x : x + (IF txs[i].st = "open" THEN FoldLeft(LAMBDA y, l : y + (IF F(l) = a THEN l.n ELSE 0), 0, txs[i].legs) ELSE 0), 0, DOMAIN txs)
Holds == \A a \in Accts : bal[a].idr = Open(a, LAMBDA l : l.s) /\ bal[a].icr = Open(a, LAMBDA l : l.d)
Sum == FoldSet(LAMBDA a, x : x + bal[a].cr - bal[a].dr, 0, Accts) = 0
Inv == NotBefore /\ Released /\ Holds /\ Sum
=============================================================================

------------------------------- MODULE Routing -------------------------------
(* Where queued transactions wait.  Every transaction of a source waits in    *)
(* one queue, chosen by the source alone, and is served in the order it was   *)
(* submitted.  A pair of source and destination that met a held lock Thr      *)
(* times, each within Ttl of the one before, is marked; once nothing of it    *)
(* waits in the normal queue its transactions go to the hot lane, until Ttl   *)
(* has passed without contention and nothing of it waits there.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json
CONSTANTS MaxLen, Sim, Lane, Thr, Ttl
Accts == IF Sim THEN {"A", "B", "C", "D"} ELSE {"A", "B", "C"}
Pairs == {p \in Accts \X Accts : p[1] # p[2]}
VARIABLES now, pr, wait, cnt, hist, fin
vars == <<now, pr, wait, cnt, hist, fin>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Fresh == [n |-> 0, until |-> 0, st |-> "normal", act |-> 0, hits |-> <<>>, markEnd |-> 0, ok |-> FALSE]
State(p, t) == IF p.st = "marked" /\ p.markEnd <= t THEN "normal" ELSE p.st
Waits(w, p, lane) == \E i \in DOMAIN w : w[i].p = p /\ w[i].lane = lane
Ahead(w, p) == {w[i].lane : i \in {i \in DOMAIN w : w[i].p = p}}

\* the lane of a new transaction of pair p and the pair afterwards
Route(q, w, p, t) ==
  LET s == State(q, t)
      active == q.act > t IN
  CASE ~Lane -> <<"normal", q>>
    [] s = "marked" /\ ~Waits(w, p, "normal") -> <<"hot", [q EXCEPT !.st = "hot", !.act = t + Ttl]>>
    [] s = "hot" /\ (active \/ Waits(w, p, "hot")) -> <<"hot", IF active THEN q ELSE [q EXCEPT !.st = "cool"]>>
    [] s = "hot" -> <<"normal", Fresh>>
    [] s = "cool" /\ Waits(w, p, "hot") -> <<"hot", q>>
    [] s = "cool" -> <<"normal", Fresh>>
    [] OTHER -> <<"normal", q>>
Contend(q, t) ==
  IF ~Lane THEN q ELSE
  LET n == IF q.until > t THEN q.n + 1 ELSE 1
      s == State(q, t)
      a == [q EXCEPT !.n = n, !.until = t + Ttl, !.act = t + Ttl, !.hits = Append(IF q.until > t THEN q.hits ELSE <<>>, t)] IN
  IF n < Thr THEN a
  ELSE IF s = "normal" THEN [a EXCEPT !.st = "marked", !.markEnd = t + 4 * Ttl, !.ok = Len(a.hits) >= Thr]
  ELSE IF s = "marked" THEN [a EXCEPT !.markEnd = t + 4 * Ttl]
  ELSE a

Log(op, exp) == hist' = Append(hist, [op |-> op, exp |-> exp])
\* the legs go to their queues one after the other
Put(s, p) == LET r == Route(s.pr[p], s.w, p, now) IN
  [pr |-> [s.pr EXCEPT ![p] = r[2]], w |-> Append(s.w, [p |-> p, lane |-> r[1], i |-> s.i]), i |-> s.i + 1, lanes |-> Append(s.lanes, r[1])]
Legs(s, d, d2, how) == CASE how = "dests" -> <<<<s, d>>, <<s, d2>>>> [] how = "sources" -> <<<<s, d>>, <<d2, d>>>> [] how = "bulk" -> <<<<s, d>>, <<d2, d>>>> [] OTHER -> <<<<s, d>>>>
Submit ==
  \E s \in Pick(Accts), how \in (IF Sim THEN Pick({"", "", "", "", "dests", "sources", "bulk"}) ELSE {""}), by \in Pick(IF Sim THEN {"id", "id", "name"} ELSE {"id"}), meta \in Pick(IF Sim THEN {"", "", "hot", "junk"} ELSE {""}) :
  \E d \in Pick(Accts \ {s}) : \E d2 \in (IF Sim THEN Pick(Accts \ {s, d}) ELSE {d}) :
    LET legs == Legs(s, d, d2, how)
        r == FoldLeft(Put, [pr |-> pr, w |-> wait, i |-> cnt + 1, lanes |-> <<>>], legs) IN
    /\ Len(wait) < (IF Sim THEN 8 ELSE 3)
    /\ pr' = r.pr /\ wait' = r.w /\ cnt' = r.i - 1
    /\ Log([k |-> "submit", i |-> cnt + 1, s |-> s, d |-> d, d2 |-> d2, how |-> how, by |-> by, meta |-> meta], [lanes |-> r.lanes, queues |-> TRUE])
    /\ UNCHANGED <<now, fin>>
\* the oldest of a pair is served while a balance of it is held
Held ==
  \E p \in Pick({wait[i].p : i \in DOMAIN wait}), which \in Pick({1, 2}) :
    /\ pr' = [pr EXCEPT ![p] = Contend(@, now)]
    /\ Log([k |-> "held", s |-> p[1], d |-> p[2], which |-> which, i |-> wait[Min({i \in DOMAIN wait : wait[i].p = p})].i], [done |-> FALSE])
    /\ UNCHANGED <<now, wait, cnt, fin>>
\* a transaction that does not wait meets the lock
Direct ==
  \E s \in Pick(Accts), which \in Pick({1, 2}) : \E d \in Pick(Accts \ {s}) :
    /\ pr' = [pr EXCEPT ![<<s, d>>] = Contend(@, now)]
    /\ Log([k |-> "direct", s |-> s, d |-> d, which |-> which], [done |-> FALSE])
    /\ UNCHANGED <<now, wait, cnt, fin>>
\* the oldest of a source in a lane is served
Serve ==
  \E x \in Pick({<<wait[i].p[1], wait[i].lane>> : i \in DOMAIN wait}) :
    LET k == Min({i \in DOMAIN wait : wait[i].p[1] = x[1] /\ wait[i].lane = x[2]}) IN
    /\ wait' = [i \in 1..(Len(wait) - 1) |-> IF i < k THEN wait[i] ELSE wait[i + 1]]
    /\ Log([k |-> "serve", s |-> x[1], lane |-> x[2]], [i |-> wait[k].i, done |-> TRUE])
    /\ UNCHANGED <<now, pr, cnt, fin>>
Pass == \E dt \in Pick(IF Sim THEN {1, 1, 2, Ttl, Ttl + 1, 5 * Ttl} ELSE {1, Ttl}) :
  /\ now' = now + dt /\ now < 60 /\ Log([k |-> "pass", dt |-> dt], [x \in {} |-> 0]) /\ UNCHANGED <<pr, wait, cnt, fin>>
\* once more on a pair that met the lock a while ago
Again ==
  \E p \in Pick({p \in Pairs : pr[p].n > 0 /\ pr[p].st = "normal" /\ pr[p].until > now}), dt \in Pick({1, Ttl - 1}) :
    /\ Sim /\ dt > 0 /\ now' = now + dt
    /\ pr' = [pr EXCEPT ![p] = Contend(@, now + dt)]
    /\ Log([k |-> "direct", s |-> p[1], d |-> p[2], which |-> 1, dt |-> dt], [done |-> FALSE])
    /\ UNCHANGED <<wait, cnt, fin>>
\* a pair in trouble: contention again and again
Trouble == \E p \in Pick({wait[i].p : i \in DOMAIN wait}) :
    /\ Sim
    /\ pr' = [pr EXCEPT ![p] = FoldLeft(LAMBDA q, i : Contend(q, now), @, [i \in 1..Thr |-> i])]
    /\ Log([k |-> "trouble", s |-> p[1], d |-> p[2], n |-> Thr], [done |-> FALSE])
    /\ UNCHANGED <<now, wait, cnt, fin>>
\* more of a pair that waits or is marked
More ==
  \E p \in Pick({p \in Pairs : Waits(wait, p, "normal") \/ Waits(wait, p, "hot") \/ pr[p].st # "normal"}) :
    LET r == Put([pr |-> pr, w |-> wait, i |-> cnt + 1, lanes |-> <<>>], p) IN
    /\ Sim /\ Len(wait) < 8
    /\ pr' = r.pr /\ wait' = r.w /\ cnt' = r.i - 1
    /\ Log([k |-> "submit", i |-> cnt + 1, s |-> p[1], d |-> p[2], d2 |-> "", how |-> "", by |-> "id", meta |-> ""], [lanes |-> r.lanes, queues |-> TRUE])
    /\ UNCHANGED <<now, fin>>

Init == now = 1 /\ pr = [p \in Pairs |-> Fresh] /\ wait = <<>> /\ cnt = 0 /\ hist = <<>> /\ fin = FALSE
Next ==
  \/ Len(hist) < MaxLen /\ (Submit \/ Submit \/ More \/ More \/ More \/ Held \/ Held \/ Again \/ Again \/ Trouble \/ Direct \/ Serve \/ Serve \/ Serve \/ Pass \/ Pass)
  \/ ~fin /\ Sim /\ Len(hist) >= MaxLen /\ fin' = TRUE /\ PrintT(<<"ZZPROG", ToJson(hist)>>) /\ UNCHANGED <<now, pr, wait, cnt, hist>>
Spec == Init /\ [][Next]_vars

\* what waits of a pair waits in one lane, so serving both lanes keeps its order
OneLane == \A p \in Pairs : Cardinality(Ahead(wait, p)) <= 1
\* (a pair that goes back to normal while something of it is in the hot lane would break it, and so would the reverse)
InOrder == \A i, j \in DOMAIN wait : i < j => wait[i].i < wait[j].i
\* a pair is marked by Thr contentions, each within Ttl of the one before
Earned == \A p \in Pairs : pr[p].st # "normal" => pr[p].ok
Chain == \A p \in Pairs : \A k \in 1..(Len(pr[p].hits) - 1) : pr[p].hits[k + 1] - pr[p].hits[k] < Ttl
Off == ~Lane => \A i \in DOMAIN wait : wait[i].lane = "normal"
Inv == OneLane /\ InOrder /\ Earned /\ Chain /\ Off
===============================================================================

------------------------------- MODULE Queue -------------------------------
(* Design of asynchronous posting.  Queued transactions are rows without   *)
(* an outcome; tasks that name them are delivered to workers at least once *)
(* and possibly to two at a time, workers may die at any step, the queue   *)
(* may lose a task, and recovery enqueues what stayed behind.  A worker    *)
(* may take several queued transactions along and commit them together     *)
(* (coalescing).  The Use* constants switch guards off one at a time.      *)
EXTENDS LedgerCore, SequencesExt, FiniteSetsExt

CONSTANTS Scn, Workers,
          Redeliveries, Crashes, Losses,   \* how often each may happen
          Coalesce,
          UseRef,       \* the outcome's reference is unique in the database
          UseVersion,   \* balances are written only if unchanged since read
          UseLateAck,   \* a task is acknowledged after its outcome, not before
          UseRecovery,
          UseFallback   \* a group that fails is still processed one by one

Q(s, d, a, k) == [src |-> s, dst |-> d, amt |-> a, k |-> k, od |-> "none", lim |-> 0]
Scenarios ==
  [plain |-> [q1 |-> Q("A", "B", 2, "post"), q2 |-> Q("A", "C", 2, "post")],
   mixed |-> [q1 |-> Q("A", "B", 2, "post"), q2 |-> Q("A", "B", 1, "hold"), q3 |-> Q("B", "A", 2, "post")],
   chain |-> [q1 |-> Q("A", "B", 3, "post"), q2 |-> Q("B", "C", 3, "post")]]
Txs == Scenarios[Scn]
Ids == DOMAIN Txs
Accts == {"A", "B", "C"}
Order == SelectSeq(<<"q1", "q2", "q3">>, LAMBDA q : q \in Ids)

VARIABLES bals, vers,
          out,        \* id -> sequence of outcomes: "post" | "hold" | "rejected"
          tasks,      \* id -> task copies waiting
          pc, lead, grp, loc,    \* per worker
          red, cr, ls, bad
vars == <<bals, vers, out, tasks, pc, lead, grp, loc, red, cr, ls, bad>>

NoLoc == [b |-> [n \in {} |-> 0], v |-> [n \in {} |-> 0]]
Init == /\ bals = [[n \in Accts |-> ZeroBal] EXCEPT !["A"] = Credit(@, 3)]
        /\ vers = [n \in Accts |-> 1]
        /\ out = [q \in Ids |-> <<>>] /\ tasks = [q \in Ids |-> 1]
        /\ pc = [w \in Workers |-> "idle"] /\ lead = [w \in Workers |-> ""]
        /\ grp = [w \in Workers |-> {}] /\ loc = [w \in Workers |-> NoLoc]
        /\ red = 0 /\ cr = 0 /\ ls = 0 /\ bad = {}

Go(w, s) == pc' = [pc EXCEPT ![w] = s]
Forget(w) == /\ lead' = [lead EXCEPT ![w] = ""] /\ grp' = [grp EXCEPT ![w] = {}]
             /\ loc' = [loc EXCEPT ![w] = NoLoc]
Open(q) == out[q] = <<>>
Keys(G) == {Txs[q].src : q \in G} \cup {Txs[q].dst : q \in G}

\* a task is delivered; with coalescing the worker looks for company among
\* the rows without an outcome
Take(w) ==
  /\ pc[w] = "idle"
  /\ \E q \in Ids :
      /\ tasks[q] > 0
      /\ tasks' = [tasks EXCEPT ![q] = @ - 1]
      /\ lead' = [lead EXCEPT ![w] = q]
      /\ \E G \in IF Coalesce THEN {S \cup {q} : S \in SUBSET {x \in Ids : Open(x)}} ELSE {{q}} :
           grp' = [grp EXCEPT ![w] = G]
      /\ Go(w, "check")
      /\ UNCHANGED <<bals, vers, out, loc, red, cr, ls, bad>>

\* those with an outcome drop out
Check(w) ==
  /\ pc[w] = "check"
  /\ LET G == {q \in grp[w] : Open(q)}
     IN IF G = {} THEN /\ Go(w, "ack") /\ UNCHANGED grp
        ELSE IF lead[w] \notin G /\ Cardinality(grp[w]) = 1 THEN Go(w, "ack") /\ UNCHANGED grp
        ELSE grp' = [grp EXCEPT ![w] = G] /\ Go(w, "read")
  /\ UNCHANGED <<bals, vers, out, tasks, lead, loc, red, cr, ls, bad>>

Read(w) == /\ pc[w] = "read" /\ loc' = [loc EXCEPT ![w] = [b |-> bals, v |-> vers]]
           /\ Go(w, "commit") /\ UNCHANGED <<bals, vers, out, tasks, lead, grp, red, cr, ls, bad>>

Fits(B, q) == FundsOK(B[Txs[q].src], Txs[q].amt, Txs[q].od, Txs[q].lim)
\* those of the group that fit, one after another, and what that leaves
Fold(B, G) == FoldLeft(LAMBDA a, q : IF q \in G /\ Fits(a.B, q)
                  THEN [B |-> Effect(a.B, Txs[q].k, Txs[q].src, Txs[q].dst, Txs[q].amt), D |-> a.D \cup {q}] ELSE a,
                  [B |-> B, D |-> {}], Order)

Commit(w) ==
  /\ pc[w] = "commit"
  /\ LET r == Fold(loc[w].b, grp[w])
         K == Keys(r.D)
         single == Cardinality(grp[w]) = 1
         okv == UseVersion => \A n \in K : vers[n] = loc[w].v[n]
         okr == UseRef => \A q \in r.D : Open(q)
     IN IF r.D = {}
          THEN IF single
                 THEN \* rejected, under the same reference
                      /\ out' = IF UseRef /\ ~Open(lead[w]) THEN out ELSE [out EXCEPT ![lead[w]] = Append(@, "rejected")]
                      /\ Go(w, "ack") /\ UNCHANGED <<bals, vers, bad, grp, tasks>>
                 ELSE /\ grp' = [grp EXCEPT ![w] = {lead[w]}] /\ Go(w, "check") /\ UNCHANGED <<bals, vers, out, bad, tasks>>
        ELSE IF okv /\ okr
          THEN /\ bals' = [n \in Accts |-> IF n \in K THEN r.B[n] ELSE bals[n]]
               /\ vers' = [n \in Accts |-> IF n \in K THEN loc[w].v[n] + 1 ELSE vers[n]]
               /\ out' = [q \in Ids |-> IF q \in r.D THEN Append(out[q], Txs[q].k) ELSE out[q]]
               /\ bad' = bad \cup (IF \E n \in K : bals[n] # loc[w].b[n] THEN {"stale"} ELSE {})
               \* what did not fit is left to its own task; the leader goes on alone
               /\ IF lead[w] \in r.D THEN Go(w, "ack") /\ UNCHANGED grp
                  ELSE grp' = [grp EXCEPT ![w] = {lead[w]}] /\ Go(w, "check")
               /\ UNCHANGED tasks
        ELSE IF ~single /\ UseFallback
          THEN /\ grp' = [grp EXCEPT ![w] = {lead[w]}] /\ Go(w, "check") /\ UNCHANGED <<bals, vers, out, bad, tasks>>
        ELSE IF ~single \* without fallback a failed group is simply given up
          THEN Go(w, "ack") /\ UNCHANGED <<bals, vers, out, bad, grp, tasks>>
        ELSE \* lost a race: the task goes back and is tried again
             /\ Go(w, "idle") /\ tasks' = IF UseLateAck THEN [tasks EXCEPT ![lead[w]] = @ + 1] ELSE tasks
             /\ UNCHANGED <<bals, vers, out, bad, grp>>
  /\ loc' = [loc EXCEPT ![w] = NoLoc]
  /\ UNCHANGED <<lead, red, cr, ls>>

Ack(w) == /\ pc[w] = "ack" /\ Go(w, "idle") /\ Forget(w)
          /\ UNCHANGED <<bals, vers, out, tasks, red, cr, ls, bad>>

\* the lease of a task runs out while a worker is still busy with it
Redeliver(w) == /\ red < Redeliveries /\ pc[w] # "idle" /\ red' = red + 1
                /\ tasks' = [tasks EXCEPT ![lead[w]] = @ + 1]
                /\ UNCHANGED <<bals, vers, out, pc, lead, grp, loc, cr, ls, bad>>
Crash(w) == /\ cr < Crashes /\ pc[w] # "idle" /\ cr' = cr + 1 /\ Go(w, "idle") /\ Forget(w)
            /\ tasks' = IF UseLateAck THEN [tasks EXCEPT ![lead[w]] = @ + 1] ELSE tasks
            /\ UNCHANGED <<bals, vers, out, red, ls, bad>>
Lose(q) == /\ ls < Losses /\ tasks[q] > 0 /\ ls' = ls + 1
           /\ tasks' = [tasks EXCEPT ![q] = 0]
           /\ UNCHANGED <<bals, vers, out, pc, lead, grp, loc, red, cr, bad>>
\* recovery enqueues what has no outcome (it cannot see whether a task exists;
\* once is enough per lost task)
Recover(q) == /\ UseRecovery /\ Open(q) /\ tasks[q] = 0
              /\ tasks' = [tasks EXCEPT ![q] = 1]
              /\ UNCHANGED <<bals, vers, out, pc, lead, grp, loc, red, cr, ls, bad>>

Serve(w) == Take(w) \/ Check(w) \/ Read(w) \/ Commit(w) \/ Ack(w)
Next == \/ \E w \in Workers : Serve(w) \/ Redeliver(w) \/ Crash(w)
        \/ \E q \in Ids : Lose(q) \/ Recover(q)
Spec == /\ Init /\ [][Next]_vars
        /\ \A w \in Workers : WF_vars(Serve(w))
        /\ \A q \in Ids : SF_vars(Recover(q))

\* ---- guarantees
OneOutcome == \A q \in Ids : Len(out[q]) <= 1
NoStale == bad = {}
Journal == \A n \in Accts :
   LET S(k, f) == FoldSet(LAMBDA q, a : a + Len(SelectSeq(out[q], LAMBDA x : x = k)) * Txs[q].amt, 0, {q \in Ids : Txs[q][f] = n})
   IN /\ bals[n].c = (IF n = "A" THEN 3 ELSE 0) + S("post", "dst") /\ bals[n].d = S("post", "src")
      /\ bals[n].ic = S("hold", "dst") /\ bals[n].id = S("hold", "src")
Funded == \A n \in Accts : Avail(bals[n]) >= 0
\* the final result is that of serving them one by one in some order
Serial == LET Ords == {f \in [1..Cardinality(Ids) -> Ids] : \A a, b \in DOMAIN f : f[a] = f[b] => a = b}
              Run(f) == FoldLeft(LAMBDA a, q : IF Fits(a.B, q) THEN [B |-> Effect(a.B, Txs[q].k, Txs[q].src, Txs[q].dst, Txs[q].amt), D |-> a.D \cup {q}] ELSE a,
                                 [B |-> [[n \in Accts |-> ZeroBal] EXCEPT !["A"] = Credit(@, 3)], D |-> {}], f)
          IN (\A q \in Ids : out[q] # <<>>) =>
               \E f \in Ords : LET r == Run(f) IN r.B = bals /\ r.D = {q \in Ids : out[q][1] # "rejected"}
Drained == <>[](\A q \in Ids : out[q] # <<>>)
=============================================================================

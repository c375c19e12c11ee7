------------------------------- MODULE Lineage -------------------------------
(* Whose money is on a balance.  Money that comes to a tracked balance with   *)
(* the name of its provider is attributed to it; what is spent is drawn from  *)
(* the providers by the strategy of the balance, and follows the money to a   *)
(* tracked destination.  The work is left in an outbox with the posting and   *)
(* done when the outbox is drained, by workers that may fail, die or be two.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json
CONSTANTS MaxLen, Sim, Faults, Parts
Tracked == IF Sim THEN {"a", "b", "c"} ELSE {"a", "b"}
Ext == "x"
Provs == IF Sim THEN {"p", "q", "r", "s"} ELSE {"p", "q"}
Strategies == {"FIFO", "LIFO", "PROPORTIONAL"}
VARIABLES strat, main, attr, held, outbox, hist, fin
vars == <<strat, main, attr, held, outbox, hist, fin>>
\* main[x]: available money; attr[x]: what each provider brought, in the order
\* they first did; held: holds; outbox: work not done yet
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Min2(x, y) == IF x < y THEN x ELSE y
SumN(s) == FoldLeft(LAMBDA t, e : t + e.n, 0, s)

Free(e) == e.in - e.out - e.res
Index(l, p) == CHOOSE i \in DOMAIN l : l[i].p = p
Has(l, p) == \E i \in DOMAIN l : l[i].p = p
Known(l, p) == IF Has(l, p) THEN l ELSE Append(l, [p |-> p, in |-> 0, out |-> 0, res |-> 0])
Add(l, p, f, n) == LET m == Known(l, p) i == Index(m, p) IN
  CASE f = "in" -> [m EXCEPT ![i].in = @ + n] [] f = "out" -> [m EXCEPT ![i].out = @ + n] [] f = "res" -> [m EXCEPT ![i].res = @ + n]

\* ---- what a spend of n draws from each provider
InTurn(src, n) == FoldLeft(LAMBDA s, e : LET k == Min2(Free(e), s.left) IN [left |-> s.left - k, d |-> IF k > 0 THEN Append(s.d, [p |-> e.p, n |-> k]) ELSE s.d], [left |-> n, d |-> <<>>], src).d
\* in proportion, rounded down; what rounding leaves goes to the last, or what that cannot give to the others in turn
InShares(src, n) ==
  LET total == FoldLeft(LAMBDA t, e : t + Free(e), 0, src)
      eff == Min2(n, total)
      share == [i \in DOMAIN src |-> (eff * Free(src[i])) \div total]
      left == eff - FoldLeft(LAMBDA t, i : t + share[i], 0, [i \in DOMAIN src |-> i])
      order == <<Len(src)>> \o [i \in 1..(Len(src) - 1) |-> i]
      more == FoldLeft(LAMBDA s, i : LET k == Min2(Free(src[i]) - share[i], s.left) IN [left |-> s.left - k, sh |-> [s.sh EXCEPT ![i] = @ + k]], [left |-> left, sh |-> share], order).sh
  IN SelectSeq([i \in DOMAIN src |-> [p |-> src[i].p, n |-> more[i]]], LAMBDA e : e.n > 0)
Draws(l, n, st) == LET src == SelectSeq(l, LAMBDA e : Free(e) > 0) IN
  IF src = <<>> THEN <<>> ELSE IF st = "LIFO" THEN InTurn(Reverse(src), n) ELSE IF st = "FIFO" THEN InTurn(src, n) ELSE InShares(src, n)

\* ---- one piece of work: [k, i, t]; A is attr, H held
Each(l, ds, f) == FoldLeft(LAMBDA m, d : Add(m, d.p, f, d.n), l, ds)
Work(s, w) ==
  IF w.k = "post" THEN
    LET t == w.t
        ds == IF t.s \in Tracked THEN Draws(s.A[t.s], t.n, strat[t.s]) ELSE IF t.p # "" THEN <<[p |-> t.p, n |-> t.n]>> ELSE <<>>
        A1 == IF t.s \in Tracked THEN [s.A EXCEPT ![t.s] = Each(@, ds, IF t.hold THEN "res" ELSE "out")] ELSE s.A
        A2 == IF t.d \in Tracked THEN [A1 EXCEPT ![t.d] = IF t.hold THEN FoldLeft(LAMBDA m, d : Known(m, d.p), @, ds) ELSE Each(@, ds, "in")] ELSE A1
    IN [A |-> A2, H |-> IF t.hold THEN [s.H EXCEPT ![w.i].ds = ds, ![w.i].ready = TRUE] ELSE s.H,
        D |-> IF t.s \in Tracked THEN Append(s.D, [i |-> w.i, ds |-> ds]) ELSE s.D]
  ELSE
    LET h == s.H[w.i] t == h.t
        neg == [j \in DOMAIN h.ds |-> [p |-> h.ds[j].p, n |-> 0 - h.ds[j].n]]
        A1 == IF t.s \in Tracked THEN [s.A EXCEPT ![t.s] = IF w.k = "commit" THEN Each(Each(@, neg, "res"), h.ds, "out") ELSE Each(@, neg, "res")] ELSE s.A
        A2 == IF t.d \in Tracked /\ w.k = "commit" THEN [A1 EXCEPT ![t.d] = Each(@, h.ds, "in")] ELSE A1
    IN [A |-> A2, H |-> s.H, D |-> s.D]
State == [A |-> attr, H |-> held, D |-> <<>>]
Drained == FoldLeft(Work, State, outbox)

Show(l) == LET m == SelectSeq(l, LAMBDA e : e.in > 0) IN [p \in {m[i].p : i \in DOMAIN m} |-> [in |-> m[Index(m, p)].in, out |-> m[Index(m, p)].out]]
Seen == [at |-> [x \in {x \in Tracked : \E i \in DOMAIN attr'[x] : attr'[x][i].in > 0} |-> Show(attr'[x])]]
Log(op, exp) == hist' = Append(hist, [op |-> op, exp |-> exp @@ Seen])
Nothing == [x \in {} |-> 0]
Involved(t) == t.s \in Tracked \/ (t.d \in Tracked /\ t.p # "")

Amt(x) == IF Sim THEN {RandomElement(1..12)} ELSE {1, 3}
Post == \E s \in Pick(IF Sim THEN {"a", "b", "c", "x", "x1", "x2"} ELSE Tracked \cup {Ext}), n \in Amt(1), p \in Pick(IF Sim THEN {"", "p", "q", "r", "s"} ELSE {"", "p", "q"}), hold \in Pick(IF Sim THEN {TRUE, FALSE, FALSE} ELSE {FALSE}), path \in (IF Sim THEN Pick({"skip", "queue", "bulk", "split"}) ELSE {"skip"}), how \in (IF Sim /\ Faults THEN Pick({"", "fault", "die"}) ELSE {""}), at \in (IF Faults THEN Pick(1..16) ELSE {1}) :
  LET src == IF s \in Tracked THEN s ELSE Ext IN
  \E d \in Pick(IF src = Ext THEN Tracked ELSE (Tracked \cup {Ext}) \ {src}) :
  LET fund == IF src = Ext /\ Sim THEN n + 6 ELSE n
      t == [s |-> src, d |-> d, n |-> fund, p |-> p, hold |-> hold]
      fits == src = Ext \/ main[src] >= fund
      i == Len(hist) + 1 IN
  \* what was spent of money that came without a provider is not looked at again when others follow
  /\ ~(d \in Tracked /\ attr[d] = <<>> /\ \E j \in DOMAIN outbox : outbox[j].k = "post" /\ outbox[j].t.s = d)
  /\ IF ~fits THEN UNCHANGED <<main, held, outbox>>
     ELSE /\ main' = [x \in Tracked |-> IF x = src THEN main[x] - fund ELSE IF x = d /\ ~hold THEN main[x] + fund ELSE main[x]]
          /\ held' = IF hold THEN held @@ (i :> [t |-> t, ds |-> <<>>, ready |-> FALSE, open |-> TRUE]) ELSE held
          /\ outbox' = IF Involved(t) THEN Append(outbox, [k |-> "post", i |-> i, t |-> t]) ELSE outbox
  /\ UNCHANGED <<strat, attr>>
  /\ Log([k |-> "post", i |-> i, s |-> src, d |-> d, n |-> fund, p |-> p, hold |-> hold, path |-> path, how |-> IF path = "queue" THEN "" ELSE how, at |-> at], [ok |-> fits])

\* part of a hold is committed: what it drew follows in that order
Part == \E i \in Pick({i \in DOMAIN held : held[i].open /\ held[i].ready /\ held[i].t.n > 1}) : \E m \in Pick(1..(held[i].t.n - 1)) :
  LET h == held[i] t == h.t
      c == FoldLeft(LAMBDA z, d : LET k == Min2(d.n, z.left) IN [left |-> z.left - k, now |-> Append(z.now, [p |-> d.p, n |-> k]), then |-> Append(z.then, [p |-> d.p, n |-> d.n - k])], [left |-> m, now |-> <<>>, then |-> <<>>], h.ds)
      r == Work([State EXCEPT !.H[i].ds = c.now], [k |-> "commit", i |-> i, t |-> t]) IN
  /\ held' = [held EXCEPT ![i].ds = c.then, ![i].t.n = @ - m]
  /\ attr' = r.A
  /\ main' = [x \in Tracked |-> IF x = t.d THEN main[x] + m ELSE main[x]]
  /\ UNCHANGED <<strat, outbox>>
  /\ Log([k |-> "part", i |-> i, n |-> m], [ok |-> TRUE])
Touch(w) == {w.t.s, w.t.d} \ {Ext}
\* a hold is settled, perhaps before its own work is done
Settle == \E i \in Pick({i \in DOMAIN held : held[i].open}), what \in Pick({"commit", "void"}) :
  LET h == held[i] t == h.t
      w == [k |-> what, i |-> i, t |-> t]
      r == Work(State, w) IN
  /\ h.ready \/ \A j \in DOMAIN outbox : \A l \in DOMAIN outbox : outbox[j].i = i /\ l > j => Touch(outbox[l]) \cap Touch(w) = {}
  /\ held' = [held EXCEPT ![i].open = FALSE]
  /\ main' = [x \in Tracked |-> IF what = "commit" /\ x = t.d THEN main[x] + t.n ELSE IF what = "void" /\ x = t.s THEN main[x] + t.n ELSE main[x]]
  /\ IF h.ready THEN attr' = r.A /\ UNCHANGED outbox
     ELSE UNCHANGED attr /\ outbox' = IF Involved(t) THEN Append(outbox, w) ELSE outbox
  /\ UNCHANGED strat
  /\ Log([k |-> what, i |-> i], [ok |-> TRUE])

\* the work is done; what workers of several pieces do in different orders must not matter
Apart == \A i, j \in DOMAIN outbox : i < j /\ outbox[i].i # outbox[j].i => Touch(outbox[i]) \cap Touch(outbox[j]) = {}
Drain == \E how \in (IF Faults THEN Pick({"", "fault", "fault", "die", "die", "two"}) ELSE {""}), at \in (IF Faults THEN Pick(1..70) ELSE {1}) :
  LET r == Drained IN
  /\ outbox # <<>>
  /\ how \in {"two", "fault"} => Apart
  /\ attr' = r.A /\ held' = r.H /\ outbox' = <<>>
  /\ UNCHANGED <<strat, main>>
  /\ Log([k |-> "drain", how |-> how, at |-> at, spends |-> [j \in DOMAIN r.D |-> r.D[j].i]],
         IF how = "" THEN [drawn |-> [i \in {ToString(r.D[j].i) : j \in DOMAIN r.D} |-> r.D[CHOOSE j \in DOMAIN r.D : ToString(r.D[j].i) = i].ds]] ELSE Nothing)

Init == /\ strat \in {[x \in Tracked |-> s] : s \in Strategies} /\ main = [x \in Tracked |-> 0] /\ attr = [x \in Tracked |-> <<>>]
        /\ held = Nothing /\ outbox = <<>> /\ hist = <<>> /\ fin = FALSE
Setup == /\ Sim /\ hist = <<>>
         /\ strat' = [x \in Tracked |-> TLCEval(RandomElement({s \in Strategies : x # ""}))]
         /\ UNCHANGED <<main, attr, held, outbox>> /\ Log([k |-> "setup", strat |-> strat'], Nothing)
Next == \/ Sim /\ hist = <<>> /\ Setup /\ fin' = fin
        \/ Len(hist) < MaxLen /\ (Sim => hist # <<>>) /\ fin' = fin /\ (Post \/ Post \/ Post \/ Drain \/ Drain \/ Drain \/ Settle \/ (Parts /\ Part))
        \/ /\ Sim /\ ~fin /\ Len(hist) = MaxLen /\ fin' = TRUE
           /\ PrintT(<<"ZZPROG", ToJson(hist)>>) /\ UNCHANGED <<strat, main, attr, held, outbox, hist>>
Spec == Init /\ [][Next]_vars

\* nothing is drawn that was not brought; what is attributed is covered by the money there
Sane == \A x \in Tracked : \A i \in DOMAIN attr[x] : attr[x][i].out >= 0 /\ attr[x][i].res >= 0 /\ Free(attr[x][i]) >= 0
Covered == outbox = <<>> => \A x \in Tracked : FoldLeft(LAMBDA t, e : t + Free(e), 0, attr[x]) <= main[x]
\* a spend draws all it can, never more than it is
Exact == \A x \in Tracked : \A n \in 1..6 : \A st \in Strategies :
  SumN(Draws(attr[x], n, st)) = Min2(n, FoldLeft(LAMBDA t, e : t + Free(e), 0, attr[x]))
Inv == Sane /\ Covered /\ Exact
=============================================================================

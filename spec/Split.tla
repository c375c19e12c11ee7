------------------------------- MODULE Split -------------------------------
(* Transactions with several sources or destinations. The legs follow the   *)
(* given shares, none is negative and they sum exactly to the amount; what   *)
(* rounding leaves over goes to a leg. A distribution that asks for more     *)
(* than there is moves nothing. Shares are counted in 1/10000 of the amount's *)
(* unit, so that every percentage with two decimals is exact.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json
CONSTANTS MaxLen, Sim, Exact  \* Exact: amounts in units of 10000 minor units, nothing is ever rounded
VARIABLES held,   \* open inflight splits: label -> [legs alternatives]
          hist, fin
vars == <<held, hist, fin>>
Ids == {"a", "b", "c", "d"}
W == 10000
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Pcts == {1, 5, 100, 430, 1000, 2500, 3333, 3334, 5000, 6667, 9999, 10000}
Totals == {1, 2, 3, 7, 10, 99, 100, 101, 1000, 9999, 29999}
Sum(f) == FoldFunction(LAMBDA x, y : x + y, 0, f)
\* what a share asks for, in 1/W of a minor unit
Ask(T, d) == IF d.kind = "pct" THEN T * d.v ELSE IF d.kind = "left" THEN 0 ELSE d.v * W
AskOf(T, ds, i) == Sum([k \in {k \in DOMAIN ds : ds[k].id = i} |-> Ask(T, ds[k])])
Total(T, ds) == Sum([k \in DOMAIN ds |-> Ask(T, ds[k])])
Names(ds) == {ds[k].id : k \in DOMAIN ds}
Lefts(ds) == {k \in DOMAIN ds : ds[k].kind = "left"}
\* "left" is what remains, so it cannot be combined with a share of the same name
Clash(ds) == \E k \in Lefts(ds) : \E j \in DOMAIN ds : j # k /\ ds[j].id = ds[k].id /\ ~(ds[j].kind \in {"fixed", "precise"} /\ ds[j].v = 0)
Refused(T, ds) == \/ \E k \in DOMAIN ds : ds[k].kind # "left" /\ ds[k].v < 0
                  \/ Total(T, ds) > T * W
                  \/ Clash(ds)
                  \/ Lefts(ds) = {} /\ (T > 1 \/ Exact) /\ \A i \in Names(ds) : AskOf(T, ds, i) < (IF Exact THEN 1 ELSE W)  \* nothing to give the rest to
Share(T, ds, i) == IF \E k \in Lefts(ds) : ds[k].id = i THEN T * W - Total(T, ds) ELSE AskOf(T, ds, i)
U == IF Exact THEN 1 ELSE W
\* the ways to give each name its share, rounded down, and the rest R to one of
\* them (or to two: one for the percentages, one for the whole)
Legs(T, ds) ==
  LET n == Names(ds)
      fl == [i \in n |-> Share(T, ds, i) \div U]
      R == (T * W) \div U - Sum(fl)
  IN IF R = 0 THEN {fl}
     ELSE IF T = 1 /\ ~Exact THEN {[i \in n |-> IF i = ds[1].id THEN 1 ELSE 0]}
     ELSE {[fl EXCEPT ![i] = @ + R] : i \in n}
          \cup (IF Exact THEN {} ELSE {[[fl EXCEPT ![p[1]] = @ + R - p[3]] EXCEPT ![p[2]] = @ + p[3]] : p \in {q \in n \X n \X (1..Cardinality(n)) : q[1] # q[2] /\ q[3] <= R}})
Dists(n) == LET k == RandomElement(1..4)
                T == RandomElement(Totals)
                v(kind) == CASE kind = "pct" -> RandomElement(IF RandomElement(1..30) = 1 THEN {-100, 0, 20000} ELSE Pcts)
                             [] kind = "left" -> 0
                             [] OTHER -> RandomElement(IF RandomElement(1..30) = 1 THEN {-1, 0, T + 1} ELSE 1..((T + 1) \div 2 + 1))
                Mk(j) == LET kind == RandomElement(IF j = k THEN {"left", "left", "pct", "fixed"} ELSE {"pct", "fixed", "precise"})
                         IN [id |-> RandomElement(Ids), kind |-> kind, v |-> v(kind)]
            IN TLCEval([t |-> T, ds |-> [j \in 1..k |-> TLCEval(Mk(j))]])
\* well-formed ones more often than chance makes them: shares that fill up the amount
Good(n) == LET T == RandomElement(Totals)
               p == RandomElement({<<5000, 5000>>, <<3333, 3333, 3334>>, <<1, 9999>>, <<10000>>, <<430, 9570>>, <<2500, 2500, 2500, 2500>>})
               q == RandomElement({<<5000>>, <<100, 3333>>, <<430>>, <<9999>>, <<3333, 3333>>})
               id == <<"c", "a", "d", "b">>
               f == RandomElement(1..((T + 2) \div 3))
               lst == RandomElement({"p", "q", "f"})
               fx(j, x) == [id |-> id[j], kind |-> RandomElement({"fixed", "precise"}), v |-> x]
           IN TLCEval([t |-> T, ds |->
                CASE lst = "p" -> [j \in DOMAIN p |-> [id |-> id[j], kind |-> "pct", v |-> p[j]]]
                  [] lst = "q" -> [j \in DOMAIN q |-> [id |-> id[j], kind |-> "pct", v |-> q[j]]] \o <<[id |-> "b", kind |-> "left", v |-> 0]>>
                  [] lst = "f" -> IF f < T THEN <<TLCEval(fx(1, f)), TLCEval(fx(2, T - f))>> ELSE <<TLCEval(fx(1, T))>>])
Some(n) == IF Sim THEN {IF RandomElement(1..3) = 1 THEN Dists(n) ELSE Good(n)}
           ELSE {[t |-> 7, ds |-> <<[id |-> "a", kind |-> "pct", v |-> 3333], [id |-> "b", kind |-> "left", v |-> 0]>>],
                 [t |-> 3, ds |-> <<[id |-> "a", kind |-> "pct", v |-> 5000], [id |-> "b", kind |-> "pct", v |-> 5000]>>],
                 [t |-> 3, ds |-> <<[id |-> "a", kind |-> "fixed", v |-> 2], [id |-> "b", kind |-> "pct", v |-> 5000], [id |-> "c", kind |-> "left", v |-> 0]>>]}
Nothing == [i \in Ids |-> 0]
Fill(f) == f @@ Nothing
Split == \E s \in Some(Len(hist)), dir \in Pick({"sources", "destinations"}), skip \in Pick(BOOLEAN), infl \in Pick({FALSE, FALSE, TRUE}), prec \in Pick({"1", "100", "1000000", "1000000000000000000"}) :
  LET bad == Refused(s.t, s.ds)
      legs == IF bad THEN {Nothing} ELSE {Fill(f) : f \in Legs(s.t, s.ds)}
      l == "s" \o ToString(Len(hist) + 1)
  IN /\ held' = IF infl /\ ~bad THEN (l :> legs) @@ held ELSE held
     /\ hist' = Append(hist, [op |-> [k |-> "split", l |-> l, t |-> s.t, ds |-> s.ds, dir |-> dir, skip |-> skip, infl |-> infl, prec |-> prec],
                  exp |-> [ok |-> ~bad, other |-> IF bad THEN 0 ELSE (s.t * W) \div U, named |-> TRUE],
                  alts |-> {[legs |-> f] : f \in legs}])
\* settle or release all legs of an inflight split by its parent
Settle == \E l \in Pick(DOMAIN held), how \in Pick({"commit", "void"}), skip \in Pick(BOOLEAN) :
  /\ held' = [x \in DOMAIN held \ {l} |-> held[x]]
  /\ hist' = Append(hist, [op |-> [k |-> "settle", l |-> l, how |-> how, skip |-> skip], exp |-> [ok |-> TRUE, inflight |-> 0],
       alts |-> {[settled |-> IF how = "commit" THEN f ELSE Nothing] : f \in held[l]}])
Init == held = [x \in {} |-> 0] /\ hist = <<>> /\ fin = FALSE
Next == \/ Len(hist) < MaxLen /\ fin' = fin /\ (Split \/ Split \/ (held # [x \in {} |-> 0] /\ Settle))
        \/ /\ Sim /\ ~fin /\ Len(hist) = MaxLen /\ fin' = TRUE
           /\ PrintT(<<"ZZPROG", ToJson(hist)>>) /\ UNCHANGED <<held, hist>>
Spec == Init /\ [][Next]_vars
Whole == \A j \in DOMAIN hist : LET o == hist[j].op IN (o.k = "split" /\ hist[j].exp.ok) =>
           \A a \in hist[j].alts : Sum(a.legs) = (o.t * W) \div U /\ \A i \in Ids : a.legs[i] >= 0
=============================================================================

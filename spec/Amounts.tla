------------------------------ MODULE Amounts ------------------------------
(* Amounts keep their exact value: a decimal amount times the precision is   *)
(* the precise amount whenever that is whole, a precise amount is used as    *)
(* given, and both are the same in the answer, in the record, in the queued   *)
(* task and in the balances, at any magnitude. Numbers are sequences of       *)
(* decimal digits, most significant first.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json
CONSTANTS MaxLen, Sim
VARIABLES bal, infl,  \* what the receiving balance has, settled and inflight
          holds,      \* label -> what is left of an inflight transaction
          queued,     \* accepted and not yet served: <<label, amount, inflight>>
          done,       \* label -> amount of an applied, not yet reversed transaction
          hist, fin
vars == <<bal, infl, holds, queued, done, hist, fin>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S

Zeros(n) == [i \in 1..n |-> 0]
Upto(n) == [i \in 1..n |-> i]
Norm(a) == LET nz == {i \in DOMAIN a : a[i] # 0} IN IF nz = {} THEN <<0>> ELSE SubSeq(a, Min(nz), Len(a))
Pad(a, n) == Zeros(n - Len(a)) \o a
Max2(x, y) == IF x > y THEN x ELSE y
\* digit by digit from the right, with a carry
Carry(f(_), n) == LET r == FoldLeft(LAMBDA s, i : LET t == f(n + 1 - i) + s.c IN [d |-> <<t % 10>> \o s.d, c |-> t \div 10], [d |-> <<>>, c |-> 0], Upto(n))
                  IN TLCEval(Norm(<<r.c \div 1000, (r.c \div 100) % 10, (r.c \div 10) % 10, r.c % 10>> \o r.d))
Add(x, y) == LET n == Max2(Len(x), Len(y)) a == TLCEval(Pad(x, n)) b == TLCEval(Pad(y, n)) IN Carry(LAMBDA i : a[i] + b[i], n)
Mul(a, m) == Carry(LAMBDA i : a[i] * m, Len(a))
\* ten's complement
Sub(x, y) == LET n == Max2(Len(x), Len(y)) a == TLCEval(Pad(x, n)) b == TLCEval(Pad(y, n))
                 c == Carry(LAMBDA i : a[i] + 9 - b[i] + (IF i = n THEN 1 ELSE 0), n)
             IN Norm(Tail(Pad(c, n + 1)))
Lt(x, y) == LET n == Max2(Len(x), Len(y)) a == TLCEval(Pad(x, n)) b == TLCEval(Pad(y, n))
                d == {i \in 1..n : a[i] # b[i]} IN d # {} /\ a[Min(d)] < b[Min(d)]
Shift(a, k) == Norm(a \o Zeros(k))
ZeroN == <<0>>
Txt(a) == FoldLeft(LAMBDA s, d : s \o ToString(d), "", a)
\* a times ten to the power of -e, written out
Dec(a, e) == LET p == IF Len(a) <= e THEN Zeros(e + 1 - Len(a)) \o a ELSE a
             IN IF e = 0 THEN Txt(p) ELSE Txt(SubSeq(p, 1, Len(p) - e)) \o "." \o Txt(SubSeq(p, Len(p) - e + 1, Len(p)))
\* the significant digits a decimal writing of a times ten to the power of -e has
RECURSIVE TrimZ(_, _)
TrimZ(a, e) == IF e > 0 /\ a[Len(a)] = 0 /\ Len(a) > 1 THEN TrimZ(SubSeq(a, 1, Len(a)-1), e - 1) ELSE Len(a)

RECURSIVE TrimDec(_, _)
TrimDec(a, e) == IF e > 0 /\ Len(a) > 1 /\ a[Len(a)] = 0 THEN TrimDec(SubSeq(a, 1, Len(a) - 1), e - 1) ELSE Dec(a, e)

Digits(n) == TLCEval([i \in 1..n |-> IF i = 1 THEN RandomElement(1..9) ELSE RandomElement({0, 0, 9, RandomElement(0..9)})])
Pow == {0, 0, 1, 2, 2, 2, 3, 4, 6, 8, 12, 18}
\* precise, text of the decimal amount, precision, refused
PowTxt(k) == "1" \o FoldLeft(LAMBDA s, d : s \o "0", "", Zeros(k))
Decimal(n) ==
  LET k == RandomElement(Pow)
      e == RandomElement(0..(IF k > 12 THEN 12 ELSE k))
      d == Digits(RandomElement({1, 2, 3, 6, 9, 14, 15}))
      z == RandomElement({0, 0, 0, 1, 3})
  IN TLCEval([p |-> Shift(d, k - e), txt |-> Dec(d \o Zeros(z), e + z), prec |-> PowTxt(k), k |-> k, bad |-> TrimZ(d, e) > 15])
\* precisions that are no power of ten, amounts that come out whole all the same
Odd(n) ==
  LET m == Digits(RandomElement({1, 2, 5, 9}))
      o == RandomElement({<<8, 125, 3>>, <<4, 25, 2>>, <<60, 5, 1>>, <<1024, 125, 3>>, <<5, 2, 1>>, <<7, 1, 0>>, <<3, 1, 0>>})
      a == Mul(m, o[2])
      w == Mul(a, o[1])
  IN TLCEval([p |-> SubSeq(w, 1, Len(w) - o[3]), txt |-> Dec(a, o[3]), prec |-> ToString(o[1]), k |-> -1, bad |-> FALSE])
\* more digits than a float can carry
Long(n) == LET d == Digits(RandomElement({17, 19, 25}))
           IN TLCEval([p |-> Shift(d, 2), txt |-> Txt(d), prec |-> "100", k |-> 2, bad |-> TRUE])
Precise(n) == LET d == Digits(RandomElement({1, 3, 15, 16, 17, 19, 20, 30, 60}))
                  k == RandomElement(Pow)
              IN TLCEval([p |-> d, txt |-> "-", prec |-> PowTxt(k), k |-> k, bad |-> FALSE, dec |-> TrimDec(d, k)])
PreciseOdd(n) == LET d == Digits(RandomElement({1, 3, 15, 19, 30}))
              IN TLCEval([p |-> d, txt |-> "-", prec |-> RandomElement({"3", "7", "60", "1024", "0"}), k |-> -1, bad |-> FALSE])
Num(n) == LET w == RandomElement(1..20) IN
          IF w <= 8 THEN Decimal(n) ELSE IF w <= 10 THEN Odd(n) ELSE IF w = 11 THEN Long(n) ELSE IF w <= 18 THEN Precise(n) ELSE PreciseOdd(n)
Nums(n) == IF Sim THEN {Num(n)} ELSE
  {[p |-> <<1, 9, 9>>, txt |-> "1.99", prec |-> "100", k |-> 2, bad |-> FALSE], [p |-> <<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 3>>, txt |-> "-", prec |-> "100", k |-> 2, bad |-> FALSE]}
In(x) == [amount |-> x.txt, precise |-> Txt(x.p), prec |-> x.prec]
L == "t" \o ToString(Len(hist) + 1)
Seen == [bal |-> Txt(bal'), infl |-> Txt(infl')]
Log(op, exp) == hist' = Append(hist, [op |-> op, exp |-> exp @@ Seen])
None == [x \in {} |-> 0]

Direct == \E x \in Nums(Len(hist)), ch \in Pick({"direct", "bulk"}), h \in Pick({FALSE, FALSE, TRUE}) :
  /\ bal' = IF x.bad \/ h THEN bal ELSE Add(bal, x.p)
  /\ infl' = IF ~x.bad /\ h THEN Add(infl, x.p) ELSE infl
  /\ holds' = IF ~x.bad /\ h THEN (L :> [a |-> x.p, k |-> x.k]) @@ holds ELSE holds
  /\ done' = IF ~x.bad /\ ~h THEN (L :> x.p) @@ done ELSE done
  /\ queued' = queued
  /\ Log([k |-> "post", l |-> L, in |-> In(x), ch |-> ch, infl |-> h],
         [ok |-> ~x.bad, precise |-> IF x.bad THEN "-" ELSE Txt(x.p)]
         @@ IF ~x.bad /\ "dec" \in DOMAIN x /\ ch = "direct" THEN [value |-> x.dec] ELSE None)
Enqueue == \E x \in Nums(Len(hist)), h \in Pick({FALSE, FALSE, TRUE}) :
  /\ UNCHANGED <<bal, infl, holds, done>>
  /\ queued' = IF x.bad THEN queued ELSE Append(queued, [l |-> L, a |-> x.p, h |-> h, k |-> x.k])
  /\ Log([k |-> "post", l |-> L, in |-> In(x), ch |-> "queue", infl |-> h], [ok |-> ~x.bad, precise |-> IF x.bad THEN "-" ELSE Txt(x.p)])
SumOf(s) == FoldLeft(LAMBDA a, q : Add(a, q.a), ZeroN, s)
Work == /\ queued # <<>> /\ queued' = <<>>
        /\ bal' = Add(bal, SumOf(SelectSeq(queued, LAMBDA q : ~q.h)))
        /\ infl' = Add(infl, SumOf(SelectSeq(queued, LAMBDA q : q.h)))
        /\ holds' = [l \in {queued[j].l : j \in {j \in DOMAIN queued : queued[j].h}} |-> LET q == CHOOSE q \in Range(queued) : q.l = l IN [a |-> q.a, k |-> q.k]] @@ holds
        /\ done' = [l \in {queued[j].l : j \in {j \in DOMAIN queued : ~queued[j].h}} |-> (CHOOSE q \in Range(queued) : q.l = l).a] @@ done
        /\ Log([k |-> "work"], [precise |-> [l \in {queued[j].l : j \in DOMAIN queued} |-> Txt((CHOOSE q \in Range(queued) : q.l = l).a)]])
\* a part of what is left, in minor units or in the precision of the hold
Part(a) == IF ~Sim THEN {<<1>>, a} ELSE LET d == Digits(RandomElement(1..Len(a))) IN {IF Lt(d, a) THEN d ELSE a}
Commit == \E l \in Pick(DOMAIN holds), how \in Pick({"all", "precise", "amount"}), skip \in Pick(BOOLEAN) :
  LET h == holds[l] whole == how = "all" \/ (how = "amount" /\ (h.k < 0 \/ Len(h.a) > 15)) IN
  \E a \in (IF whole THEN {h.a} ELSE Part(h.a)) :
  /\ queued = <<>>
  /\ bal' = Add(bal, a) /\ infl' = Sub(infl, a)
  /\ holds' = IF a = h.a THEN [x \in DOMAIN holds \ {l} |-> holds[x]] ELSE [holds EXCEPT ![l].a = Sub(@, a)]
  /\ UNCHANGED <<queued, done>>
  /\ Log([k |-> "commit", tgt |-> l, amount |-> IF whole \/ how = "precise" THEN "-" ELSE Dec(a, h.k), precise |-> IF whole \/ how = "amount" THEN "-" ELSE Txt(a), skip |-> skip],
         [ok |-> TRUE, precise |-> Txt(a)])
Void == \E l \in Pick(DOMAIN holds), skip \in Pick(BOOLEAN) :
  /\ queued = <<>>
  /\ infl' = Sub(infl, holds[l].a) /\ bal' = bal
  /\ Log([k |-> "void", tgt |-> l, skip |-> skip], [ok |-> TRUE, precise |-> Txt(holds[l].a)])
  /\ holds' = [x \in DOMAIN holds \ {l} |-> holds[x]] /\ UNCHANGED <<queued, done>>
Refund == \E l \in Pick(DOMAIN done) :
  /\ bal' = Sub(bal, done[l]) /\ infl' = infl
  /\ Log([k |-> "refund", tgt |-> l], [ok |-> TRUE, precise |-> Txt(done[l])])
  /\ done' = [x \in DOMAIN done \ {l} |-> done[x]] /\ UNCHANGED <<queued, holds>>
Init == bal = ZeroN /\ infl = ZeroN /\ holds = None /\ queued = <<>> /\ done = None /\ hist = <<>> /\ fin = FALSE
Next == \/ Len(hist) < MaxLen /\ fin' = fin
           /\ (Direct \/ Enqueue \/ Enqueue \/ Work \/ (holds # None /\ Commit) \/ (holds # None /\ Void) \/ (done # None /\ queued = <<>> /\ Refund))
        \/ /\ Sim /\ ~fin /\ Len(hist) = MaxLen /\ fin' = TRUE
           /\ PrintT(<<"ZZPROG", ToJson(hist)>>) /\ UNCHANGED <<bal, infl, holds, queued, done, hist>>
Spec == Init /\ [][Next]_vars
\* nothing is lost or made: what was settled is there, what is held is held
Whole == infl = FoldFunction(LAMBDA h, y : Add(h.a, y), ZeroN, holds)
Canonical == \A n \in {bal, infl} : n = Norm(n) /\ \A i \in DOMAIN n : n[i] \in 0..9
=============================================================================

----------------------------- MODULE Indicators -----------------------------
(* An indicator names one balance per currency: created on first use, on     *)
(* whatever path, and the same one ever after, also when several requests    *)
(* use it first at the same time.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json
CONSTANTS MaxLen, Sim
Fresh == {"@n0", "@n1", "@n2", "@n3", "@n4", "@n5", "@N0", "@N1"}
Names == {"@a", "@A", "@b", "@a-b", "@world", "@ünï'%_"} \cup (IF Sim THEN Fresh ELSE {})
Curs == {"USD", "EUR", "usd"}
Acc == Names \X Curs
VARIABLES made,   \* those that certainly exist
          bal,    \* what each has; nothing when it does not exist
          queued, \* accepted and not served
          hist, fin
vars == <<made, bal, queued, hist, fin>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Zero == [a \in Acc |-> 0]
\* few names, so that they meet
Hot == {"@a", "@A", "@b"}
SomeName(x) == IF Sim THEN {RandomElement(IF RandomElement(1..3) = 1 THEN Names ELSE Hot)} ELSE {"@a", "@A"}
SomeCur(x) == IF Sim THEN {RandomElement({"USD", "USD", "EUR", "usd"})} ELSE {"USD", "EUR"}
Amts(x) == IF Sim THEN {RandomElement(1..9)} ELSE {1}
Move(b, s, d, c, n) == [b EXCEPT ![<<s, c>>] = @ - n, ![<<d, c>>] = @ + n]
Post == [s : Names, d : Names, c : Curs, n : 1..9]
Posts(x) == {p \in [s : SomeName(1), d : SomeName(2), c : SomeCur(x), n : Amts(x)] : p.s # p.d}
Key(a) == a[1] \o "/" \o a[2]
Seen == [bal |-> [k \in {Key(a) : a \in {a \in Acc : bal'[a] # 0}} |-> bal'[CHOOSE a \in Acc : Key(a) = k]],
         one |-> TRUE, same |-> TRUE] @@ IF made' = {} THEN [x \in {} |-> 0] ELSE [must |-> [k \in {Key(a) : a \in made'} |-> TRUE]]
Log(op, exp) == hist' = Append(hist, [op |-> op, exp |-> exp @@ Seen])
Create == \E n \in SomeName(hist), c \in SomeCur(hist) :
  /\ <<n, c>> \in made \/ \A q \in Range(queued) : <<n, c>> \notin {<<q.s, q.c>>, <<q.d, q.c>>}
  /\ made' = made \cup {<<n, c>>} /\ UNCHANGED <<bal, queued>>
  /\ Log([k |-> "create", n |-> n, c |-> c], IF <<n, c>> \in made THEN [ok |-> FALSE] ELSE [x \in {} |-> 0])
Get == \E n \in SomeName(hist), c \in SomeCur(hist) :
  /\ UNCHANGED <<made, bal, queued>>
  /\ Log([k |-> "get", n |-> n, c |-> c], IF <<n, c>> \in made THEN [ok |-> TRUE] ELSE [x \in {} |-> 0])
\* by name or by the id of the balance, on any path that posts at once
Direct == \E p \in Posts(hist), ch \in Pick({"direct", "bulk", "split", "hold", "ids", "refund"}) :
  /\ made' = made \cup {<<p.s, p.c>>, <<p.d, p.c>>} /\ queued' = queued
  /\ bal' = IF ch = "refund" THEN bal ELSE Move(bal, p.s, p.d, p.c, p.n)
  /\ Log([k |-> "post", ch |-> ch, p |-> p], [ok |-> TRUE])
Enqueue == \E p \in Posts(hist), ch \in Pick({"queue", "bulkqueue", "splitqueue"}) :
  /\ UNCHANGED <<made, bal>> /\ queued' = Append(queued, p)
  /\ Log([k |-> "post", ch |-> ch, p |-> p], [ok |-> TRUE])
RECURSIVE MoveAll(_, _)
MoveAll(b, s) == IF s = <<>> THEN b ELSE MoveAll(Move(b, s[1].s, s[1].d, s[1].c, s[1].n), Tail(s))
Served(extra) == /\ made' = made \cup UNION {{<<q.s, q.c>>, <<q.d, q.c>>} : q \in Range(queued \o extra)}
          /\ bal' = MoveAll(bal, queued \o extra) /\ queued' = <<>>
Work == /\ queued # <<>> /\ Served(<<>>) /\ Log([k |-> "work"], [ok |-> TRUE])
\* two requests at once: the first stands still before its at-th statement
\* until the second is done
Both == \E p \in Posts(hist), q \in Posts(hist), at \in Pick(1..9), ch \in Pick({"direct", "bulk", "queue", "split"}), ch2 \in Pick({"direct", "bulk", "queue", "create", "get"}) :
  /\ Served(<<p>> \o (IF ch2 \in {"create", "get"} THEN <<>> ELSE <<q>>))
  /\ Log([k |-> "both", ch |-> ch, p |-> p, ch2 |-> ch2, q |-> q, at |-> at], [ok |-> TRUE])
\* both use the same new names
New(x) == {n \in Names : \A c \in Curs : <<n, c>> \notin made /\ \A q \in Range(queued) : n \notin {q.s, q.d}}
NewPosts(x) == IF ~Sim \/ Cardinality(New(x)) < 2 THEN Posts(x)
  ELSE LET s == RandomElement(New(x)) d == RandomElement(IF RandomElement(1..2) = 1 THEN New(x) ELSE Names) IN {p \in {TLCEval([s |-> s, d |-> d, c |-> RandomElement({"USD", "EUR"}), n |-> RandomElement(1..9)])} : p.s # p.d}
Twins == \E p \in NewPosts(hist), at \in Pick(1..9), flip \in Pick(BOOLEAN), ch \in Pick({"direct", "queue", "split"}), ch2 \in Pick({"direct", "queue", "create"}) :
  LET q == IF flip THEN [p EXCEPT !.s = p.d, !.d = p.s] ELSE p IN
  /\ Served(<<p>> \o (IF ch2 = "create" THEN <<>> ELSE <<q>>))
  /\ Log([k |-> "both", ch |-> ch, p |-> p, ch2 |-> ch2, q |-> q, at |-> at], [ok |-> TRUE])
Init == made = {} /\ bal = Zero /\ queued = <<>> /\ hist = <<>> /\ fin = FALSE
Next == \/ Len(hist) < MaxLen /\ fin' = fin /\ (Create \/ (Len(hist) > 2 /\ Get) \/ Direct \/ Direct \/ Direct \/ Enqueue \/ Enqueue \/ Work \/ Work \/ (Sim /\ Both) \/ Twins)
        \/ /\ Sim /\ ~fin /\ Len(hist) = MaxLen /\ fin' = TRUE
           /\ PrintT(<<"ZZPROG", ToJson(hist)>>) /\ UNCHANGED <<made, bal, queued, hist>>
Spec == Init /\ [][Next]_vars
\* every currency sums to nothing on its own
Apart == \A c \in Curs : FoldSet(LAMBDA n, s : s + bal[<<n, c>>], 0, Names) = 0
Known == \A a \in Acc : bal[a] # 0 => a \in made
=============================================================================

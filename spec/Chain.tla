-------------------------------- MODULE Chain --------------------------------
(* The hash chain over the journal.  Chain workers link rows in the order of  *)
(* their ids; each link seals the row's content and the link before it; the   *)
(* bookmark (chain state) remembers how far the chain goes and its head.      *)
(* Someone who can write the journal, but not the bookmark, tampers with what *)
(* was linked: verification notices unless what was sealed is still there, in *)
(* order, and nothing else.  A hash is the term it was computed from.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json
CONSTANTS MaxLen, MaxTampers, Sim
VARIABLES rows,    \* [id, c, seq, prev, hash]; seq 0: not linked yet
          st,      \* the bookmark [last, head]
          sealed,  \* what was linked, in order (nobody can see this)
          tampers, hist, fin
vars == <<rows, st, sealed, tampers, hist, fin>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Genesis == <<>>
H(prev, r) == <<prev, r.id, r.c>>

Linked(R) == SetToSortSeq({i \in DOMAIN R : R[i].seq > 0}, LAMBDA i, j : R[i].seq < R[j].seq)
Chained(R) == [k \in 1..Len(Linked(R)) |-> R[Linked(R)[k]]]
\* what a verifier computes
HeadOf(R, n) == IF n = 0 THEN Genesis ELSE Chained(R)[n].hash
Verify(R, s) ==
  LET L == Chained(R) IN
  /\ \A k \in 1..Len(L) : /\ L[k].seq = k
                          /\ L[k].prev = (IF k = 1 THEN Genesis ELSE L[k - 1].hash)
                          /\ L[k].hash = H(L[k].prev, L[k])
  /\ Len(L) = s.last /\ HeadOf(R, Len(L)) = s.head
\* linking what is not linked yet
LinkAll(R, s, g) == FoldLeft(LAMBDA a, i :
    IF a.R[i].seq > 0 THEN a
    ELSE [R |-> [a.R EXCEPT ![i].seq = a.s.last + 1, ![i].prev = a.s.head, ![i].hash = H(a.s.head, a.R[i])],
          s |-> [last |-> a.s.last + 1, head |-> H(a.s.head, a.R[i])], g |-> Append(a.g, [id |-> a.R[i].id, c |-> a.R[i].c])],
    [R |-> R, s |-> s, g |-> g], [i \in 1..Len(R) |-> i])

Log(op, exp) == hist' = Append(hist, [op |-> op, exp |-> exp])
Nothing == [x \in {} |-> 0]
Add(R, n) == R \o [i \in 1..n |-> [id |-> Len(hist) * 10 + i, c |-> 0, seq |-> 0, prev |-> Genesis, hash |-> Genesis]]
PostIt == \E w \in Pick({"skip", "queue", "hold", "bulk"}) :
  /\ Len(rows) < 9 /\ rows' = Add(rows, IF w = "skip" THEN 1 ELSE 2) /\ UNCHANGED <<st, sealed, tampers>>
  /\ Log([k |-> "post", w |-> w], Nothing)
Top == IF rows = <<>> THEN 0 ELSE Max({rows[i].seq : i \in DOMAIN rows})
Link(more) == LET r == LinkAll(IF more THEN Add(rows, 1) ELSE rows, st, sealed) IN
  /\ Top <= st.last /\ rows' = r.R /\ st' = r.s /\ sealed' = r.g /\ UNCHANGED tampers
\* one worker; one that dies or whose database fails half way, two at a time,
\* a posting or a verification half way through: verification only ever sees
\* an intact chain
Run == \E how \in (IF Sim THEN Pick({"one", "one", "die", "fault", "both", "post", "verify", "reverify"}) ELSE {"one", "post"}), at \in (IF Sim THEN Pick(1..16) ELSE {1}) :
  /\ how = "post" => Len(rows) < 9
  /\ Link(how = "post")
  /\ Log([k |-> "link", how |-> how, at |-> at],
         [links |-> st'.last, left |-> 0] @@ IF how \in {"verify", "reverify"} THEN [ok |-> Verify(rows', st')] ELSE Nothing)
Check == /\ UNCHANGED <<rows, st, sealed, tampers>>
         /\ Log([k |-> "verify"], IF Verify(rows, st) THEN [ok |-> TRUE, n |-> st.last] ELSE [ok |-> FALSE])

\* ---- tampering
L(x) == {i \in DOMAIN rows : rows[i].seq > 0}
Tampered == tampers < MaxTampers /\ tampers' = tampers + 1 /\ UNCHANGED <<st, sealed>>
\* rows after position p are made to fit what is before them again
Refit(R, p) == FoldLeft(LAMBDA A, k : LET i == Linked(A)[k] prev == IF k = 1 THEN Genesis ELSE A[Linked(A)[k - 1]].hash IN
    IF k < p THEN A ELSE [A EXCEPT ![i].seq = k, ![i].prev = prev, ![i].hash = H(prev, A[i])], R, [k \in 1..Len(Linked(R)) |-> k])
Fields == {"transaction_id", "source", "destination", "amount", "precise_amount", "currency", "status", "reference", "created_at"}
Alter == \E i \in Pick(L(1)), f \in (IF Sim THEN Pick(Fields) ELSE {"amount"}), fit \in Pick({TRUE, FALSE, FALSE}) :
  /\ rows' = LET R == [rows EXCEPT ![i].c = 100 + Len(hist)] IN IF fit THEN Refit(R, rows[i].seq) ELSE R
  /\ Log([k |-> "alter", seq |-> rows[i].seq, f |-> f, fit |-> fit], Nothing)
AlterLink == \E i \in Pick(L(2)), f \in Pick({"chain_hash", "chain_prev_hash"}) :
  /\ rows' = IF f = "chain_hash" THEN [rows EXCEPT ![i].hash = <<"x", Len(hist)>>] ELSE [rows EXCEPT ![i].prev = <<"x", Len(hist)>>]
  /\ Log([k |-> "alter", seq |-> rows[i].seq, f |-> f, fit |-> FALSE], Nothing)
Drop == \E i \in Pick(L(3) \cup {j \in L(3) : rows[j].seq = Top}), fit \in Pick(BOOLEAN) :
  /\ rows' = LET R == SelectSeq(rows, LAMBDA r : r.id # rows[i].id) IN IF fit THEN Refit(R, rows[i].seq) ELSE R
  /\ Log([k |-> "drop", seq |-> rows[i].seq, fit |-> fit], Nothing)
\* the rows stay, but their links are taken off the end
Unlink == \E i \in Pick(L(4)), gone \in Pick(BOOLEAN) :
  /\ rows' = IF gone THEN SelectSeq(rows, LAMBDA r : r.seq < rows[i].seq)
             ELSE [j \in DOMAIN rows |-> IF rows[j].seq >= rows[i].seq THEN [rows[j] EXCEPT !.seq = 0, !.prev = Genesis, !.hash = Genesis] ELSE rows[j]]
  /\ Log([k |-> "cut", seq |-> rows[i].seq, gone |-> gone], Nothing)
\* a forged row is linked at position p
Forge == \E p \in Pick(1..(Cardinality(L(5)) + 1)) :
  LET n == Linked(rows)
      R == [j \in DOMAIN rows |-> IF rows[j].seq >= p THEN [rows[j] EXCEPT !.seq = @ + 1] ELSE rows[j]]
      N == Append(R, [id |-> 1000 + Len(hist), c |-> 0, seq |-> p, prev |-> Genesis, hash |-> Genesis]) IN
  /\ Verify(rows, st) /\ rows # <<>>
  /\ rows' = Refit(N, p)
  /\ Log([k |-> "forge", seq |-> p], Nothing)
Swap == \E i \in Pick(L(6)) : \E j \in Pick(L(7) \ {i}) : \E what \in Pick({"links", "content", "fit"}) :
  LET X == [rows EXCEPT ![i].seq = rows[j].seq, ![j].seq = rows[i].seq, ![i].prev = rows[j].prev, ![j].prev = rows[i].prev, ![i].hash = rows[j].hash, ![j].hash = rows[i].hash]
      low == IF rows[i].seq < rows[j].seq THEN rows[i].seq ELSE rows[j].seq IN
  /\ rows' = IF what = "fit" THEN Refit(X, low) ELSE X
  /\ Log([k |-> "swap", a |-> rows[i].seq, b |-> rows[j].seq, what |-> what], Nothing)
\* content moves from one field into the next
Shift == /\ Sim /\ L(8) # {} /\ RandomElement(1..6) = 1
         /\ \E i \in Pick(L(8)) : rows' = [rows EXCEPT ![i].c = 100 + Len(hist)] /\ Log([k |-> "shift", seq |-> rows[i].seq], [ok |-> FALSE])
Tamper == Tampered /\ L(0) # {} /\ (Alter \/ Alter \/ AlterLink \/ Drop \/ Unlink \/ Forge \/ Swap \/ (tampers = 0 /\ Shift))

Init == rows = <<>> /\ st = [last |-> 0, head |-> Genesis] /\ sealed = <<>> /\ tampers = 0 /\ hist = <<>> /\ fin = FALSE
LastK == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op.k
Early == Len(hist) < MaxLen - 5
Next == \/ Len(hist) < MaxLen /\ fin' = fin /\ LastK \notin {"shift"}
           /\ IF LastK \in {"alter", "drop", "cut", "forge", "swap"} /\ tampers = MaxTampers THEN Check
              ELSE PostIt \/ (Early /\ PostIt) \/ Run \/ Run \/ Check \/ (Sim /\ ~Early /\ Tamper) \/ (~Early /\ Tamper)
        \/ /\ Sim /\ ~fin /\ (Len(hist) = MaxLen \/ LastK = "shift") /\ fin' = TRUE
           /\ PrintT(<<"ZZPROG", ToJson(hist)>>) /\ UNCHANGED <<rows, st, sealed, tampers, hist>>
Spec == Init /\ [][Next]_vars

Content(R) == [k \in 1..Len(Chained(R)) |-> [id |-> Chained(R)[k].id, c |-> Chained(R)[k].c]]
\* verification passes on what nobody touched, and only if what was sealed is what is there
Passes == tampers = 0 => Verify(rows, st)
Exposes == Verify(rows, st) => Content(rows) = sealed
Gapless == tampers = 0 => {rows[i].seq : i \in L(9)} = 1..st.last
Inv == Passes /\ Exposes /\ Gapless
=============================================================================

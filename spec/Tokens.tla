------------------------------ MODULE Tokens ------------------------------
(* Tokenization of identity fields: hide the value, give it back exactly.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json
CONSTANTS MaxLen, Sim
Fields == {"FirstName", "LastName", "OtherNames", "EmailAddress", "PhoneNumber", "Street", "PostCode"}
Others == {"City", "Gender", "Country", "Nope", "MetaData", "IdentityID", "first_name"}
Vals == {"", "A", "John", "Anne-Marie O'Neil", "+44 (0)20 7946 0958", "a:b:c", "FPT:x:y", "FPT:", "李明", "Émile Zoë", "mixed Ω 12", "x@y.co",
         "<b>\"q\"</b>", "percent % $1 ; --", "tab\tnew\nline", "0000000000", "VGhpcyBpcyBiYXNlNjQ=", "long"}
VARIABLES vals,   \* identity -> field -> original value
          tok,    \* identity -> fields tokenized
          hist, fin
vars == <<vals, tok, hist, fin>>
Ids == {"i1", "i2"}
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Exp(ok, more) == [ok |-> ok, tokenized |-> [i \in DOMAIN tok' |-> [f \in Fields |-> f \in tok'[i]]], plain |-> [i \in DOMAIN vals' |-> [f \in Fields \ tok'[i] |-> vals'[i][f]]],
                  hidden |-> TRUE, other |-> TRUE] @@ more
None == [x \in {} |-> 0]
Log(op, ok, more) == hist' = Append(hist, [op |-> op, exp |-> Exp(ok, more)])
Case(f) == Pick({f, f, "lower"})  \* fields may be named with a small first letter
Create == \E i \in Ids \ DOMAIN vals :
  \E v \in (IF Sim THEN {TLCEval([f \in Fields |-> RandomElement(Vals)])} ELSE {[f \in Fields |-> "John"]}) :
  /\ vals' = (i :> v) @@ vals /\ tok' = (i :> {}) @@ tok
  /\ Log([k |-> "create", id |-> i, vals |-> v], TRUE, None)
Tok == \E i \in Pick(DOMAIN vals), f \in Pick(Fields \cup Others), low \in Pick(BOOLEAN) :
  LET ok == f \in Fields /\ f \notin tok[i]
  IN /\ vals' = vals /\ tok' = IF ok THEN [tok EXCEPT ![i] = @ \cup {f}] ELSE tok
     /\ Log([k |-> "tok", id |-> i, f |-> f, low |-> low], ok, None)
\* several at once: stops at the first that is refused
RECURSIVE Fold(_, _)
Fold(fs, done) == IF fs = <<>> THEN [ok |-> TRUE, s |-> done]
                  ELSE IF Head(fs) \in Fields /\ Head(fs) \notin done THEN Fold(Tail(fs), done \cup {Head(fs)}) ELSE [ok |-> FALSE, s |-> done]
Lists(n) == IF Sim THEN {TLCEval([j \in 1..RandomElement(1..4) |-> RandomElement(Fields)])} ELSE {<<"Street">>, <<"Street", "LastName">>}
TokMany == \E i \in Pick(DOMAIN vals), fs \in Lists(Len(hist)) :
  LET r == Fold(fs, tok[i])
  IN /\ vals' = vals /\ tok' = [tok EXCEPT ![i] = r.s]
     /\ Log([k |-> "tokmany", id |-> i, fs |-> fs], r.ok, None)
Detok == \E i \in Pick(DOMAIN vals), f \in Pick(Fields \cup Others), low \in Pick(BOOLEAN) :
  LET ok == f \in tok[i]
  IN /\ UNCHANGED <<vals, tok>>
     /\ Log([k |-> "detok", id |-> i, f |-> f, low |-> low], ok, IF ok THEN [value |-> vals[i][f]] ELSE None)
DetokAll == \E i \in Pick(DOMAIN vals), how \in Pick({"all", "library"}) :
  /\ UNCHANGED <<vals, tok>>
  /\ Log([k |-> "detokall", id |-> i, how |-> how], TRUE,
         [values |-> IF how = "all" THEN [f \in tok[i] |-> vals[i][f]] ELSE vals[i]])
\* editing a field that is not tokenized leaves the tokens alone
Edit == \E i \in Pick(DOMAIN vals) : \E f \in Pick(Fields \ tok[i]), v \in Pick(Vals \ {""}) :
  /\ tok' = tok /\ vals' = [vals EXCEPT ![i][f] = v]
  /\ Log([k |-> "edit", id |-> i, f |-> f, v |-> v], TRUE, None)
MetaUpd == \E i \in Pick(DOMAIN vals) : /\ UNCHANGED <<vals, tok>> /\ Log([k |-> "meta", id |-> i, n |-> Len(hist)], TRUE, None)
Init == vals = None /\ tok = None /\ hist = <<>> /\ fin = FALSE
Next == \/ Len(hist) < MaxLen /\ fin' = fin /\ (Create \/ (vals # None /\ (Tok \/ Tok \/ TokMany \/ Detok \/ DetokAll \/ Edit \/ MetaUpd)))
        \/ /\ Sim /\ ~fin /\ Len(hist) = MaxLen /\ fin' = TRUE
           /\ PrintT(<<"ZZPROG", ToJson(hist)>>) /\ UNCHANGED <<vals, tok, hist>>
Spec == Init /\ [][Next]_vars
Inv == \A i \in DOMAIN tok : tok[i] \subseteq Fields
===========================================================================

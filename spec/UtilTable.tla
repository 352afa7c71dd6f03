----------------------------- MODULE UtilTable -----------------------------
(***************************************************************************)
(* Explores every state of the utility machines under every byte, checks   *)
(* invariants, and prints the transition rows.                             *)
(***************************************************************************)
EXTENDS Util, TLC, Json

CONSTANTS Export, Delimiters

VARIABLE s

Init == s \in {InitDecode, InitQuery} \cup {InitField(d, n) : d \in Delimiters, n \in BOOLEAN}

Decode == s.m[1] = "decode" /\ s.c # "Dead" /\ \E b \in Byte : s' = Step(s, b).nx
Query  == s.m[1] = "query"  /\ s.c # "Dead" /\ \E b \in Byte : s' = Step(s, b).nx
Field  == s.m[1] = "field"  /\ s.c # "Dead" /\ \E b \in Byte : s' = Step(s, b).nx
Next == Decode \/ Query \/ Field
Spec == Init /\ [][Next]_s

Toks(r) == {r.ev[i] : i \in 1..Len(r.ev)}
OutcomeOK(r) ==
    /\ TypeOK(r.nx) /\ r.nx.m = s.m
    /\ r.er \in ErrorKinds \cup {""}
    /\ (r.er # "") <=> (r.nx.c = "Dead" /\ s.c # "Dead")
    /\ r.er # "" => r.ev = <<>>
    /\ \A t \in Toks(r) : t[1] \in DataTokens \cup EventTokens /\ t[2] \in Byte
    /\ Len(r.ev) <= 1
TypeInv == TypeOK(s)
StepInv == s.c # "Dead" =>
    /\ OutcomeOK(End(s))
    /\ \A b \in Byte : LET r == Step(s, b) IN
       /\ OutcomeOK(r)
       \* an undecoded control byte, space or byte above 126 never gets through decoding
       /\ s.c \in {"Plain", "First", "Next", "Name", "Value"} /\ ~IsVisible(b) => r.er # ""
       \* normalized names have no upper case
       /\ (s.m[1] = "field" /\ s.m[3]) => \A t \in Toks(r) : t[1] = "name" => ~IsUpper(t[2])
       \* an unquoted value never contains the delimiter
       /\ (s.c \in {"Equal", "FValue"}) => T("value", Delim(s)) \notin Toks(r)

\* -1: the input byte, -2: its lower case
Norm(b, ev) == [i \in 1..Len(ev) |-> <<ev[i][1],
                   IF ev[i][1] \in DataTokens
                   THEN IF ev[i][2] = b THEN -1 ELSE IF ev[i][2] = b + 32 THEN -2 ELSE ev[i][2]
                   ELSE ev[i][2]>>]
Key(t) == <<t.m, t.c, t.k>>
Outcome(b) == LET r == Step(s, b) IN <<r.er, Key(r.nx), Norm(b, r.ev)>>
Runs == LET o == [b \in Byte |-> Outcome(b)]
        IN {<<b, o[b]>> : b \in {x \in Byte : x = 0 \/ o[x] # o[x - 1]}}
Row == IF s.c = "Dead" THEN [s |-> Key(s), g |-> "end"]
       ELSE [s |-> Key(s), g |-> s.m[1], r |-> Runs, z |-> End(s).ev, ze |-> End(s).er]
PrintRow == Export => PrintT("ROW" \o ToJson(Row))
ASSUME Export => PrintT("META" \o ToJson([data |-> DataTokens, events |-> EventTokens, kinds |-> ErrorKinds]))
=============================================================================

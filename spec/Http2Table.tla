----------------------------- MODULE Http2Table -----------------------------
(***************************************************************************)
(* Explores every reachable state of the HTTP/2 reference machine under    *)
(* every byte, checks invariants, and prints the transition rows.          *)
(***************************************************************************)
EXTENDS Http2, TLC, Json, FiniteSets

CONSTANT Export

VARIABLES s,        \* state of the machine
          left      \* bytes until the next frame is due, counted independently:
                    \* -1 in a frame header, BIG if unknown

vars == <<s, left>>

Init == s = Start /\ left = -1

FrameHeader == s.c \in HeadCtl /\ \E b \in Byte, g \in Relations :
    /\ s' = Step(s, b, g).nx
    /\ left' = IF s.c = "Sid4" THEN s.len ELSE -1
\* a byte of the payload of a frame of any regular kind
FrameBody == s.c \in PayCtl /\ \E b \in Byte, g \in Possible(s) :
    /\ s' = Step(s, b, g).nx
    /\ left' = IF s'.c \in {"Len1", "Dead"} THEN -1
               ELSE IF left = BIG THEN (IF g = "max" THEN MaxLen ELSE BIG)
               ELSE IF left = 0 THEN 0 ELSE left - 1

Next == FrameHeader \/ FrameBody
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Invariants.                                                             *)
(***************************************************************************)
Toks(r) == {r.ev[i] : i \in 1..Len(r.ev)}
Tok == DataTokens \cup RegTokens \cup EventTokens

TypeInv == TypeOK(s)
\* the machine is at a frame header exactly when the announced length is used up
ResyncInv == s.c \in PayCtl => IF s.k = 1 THEN left = 0 ELSE left = s.len
StepInv == s.c \notin EndCtl => \A b \in Byte, g \in Possible(s) :
    LET r == Step(s, b, g) IN
    /\ TypeOK(r.nx)
    /\ (r.er # "") <=> (r.nx = Dead)
    /\ \A t \in Toks(r) : t[1] \in Tok /\ t[2] \in Byte
    \* the header announces a frame exactly when it is complete
    /\ (E("frame_format") \in Toks(r)) <=> (s.c = "Sid4")
    \* payload callbacks report the end exactly when no data byte is left
    /\ \A e \in {"data_end", "fragment_end", "ping_end", "debug_end", "unsupported_end"} :
          E(e) \in Toks(r) => r.nx.c \in {"Padding", "Len1"}
    \* padding is never delivered
    /\ (s.c = "Padding" => r.ev = <<>> /\ r.er = "")
    /\ (s.c = "Payload" => r.er = "" /\ \E p \in DataTokens : r.ev[1] = T(p, b))
    \* data is the byte that has been read: nothing is held, nothing is rewritten
    /\ \A i, j \in 1..Len(r.ev) : r.ev[i][1] \in DataTokens => r.ev[i][2] = b /\ (r.ev[j][1] \in DataTokens => i = j)
    \* no number carries a reserved bit
    /\ (s.c = "Sid1" => r.ev[1][2] < 128)
    /\ (s.c = "Dep1" => r.ev[Len(r.ev)][2] < 128)
    /\ (s.c = "Val1" /\ s.ty = WINDOW_UPDATE => r.ev[1][2] < 128)

(***************************************************************************)
(* Export.                                                                 *)
(***************************************************************************)
Key(t) == <<t.c, t.ty, t.fl, t.len, t.pad, t.k>>
\* -1: the input byte, -4: its lower seven bits, -5: its top bit
Norm(b, ev) == [i \in 1..Len(ev) |-> <<ev[i][1],
                   IF ev[i][1] \in DataTokens \cup RegTokens
                   THEN IF ev[i][1] = "#excl" THEN -5
                        ELSE IF ev[i][2] = b /\ b < 128 /\ s.c \in {"Sid1", "Dep1"} THEN -4
                        ELSE IF ev[i][2] = b /\ b < 128 /\ s.c = "Val1" /\ s.ty = WINDOW_UPDATE THEN -4
                        ELSE IF ev[i][2] = b THEN -1 ELSE IF ev[i][2] = b % 128 THEN -4 ELSE ev[i][2]
                   ELSE ev[i][2]>>]
Out(b, g) == LET r == Step(s, b, g) IN <<g, r.er, Key(r.nx), Norm(b, r.ev)>>
Outcome(b) == LET os == {SubSeq(Out(b, g), 2, 4) : g \in Possible(s)} IN
              IF Cardinality(os) = 1 THEN {<<"any">> \o o : o \in os} ELSE {Out(b, g) : g \in Possible(s)}
Runs == LET o == [b \in Byte |-> Outcome(b)]
        IN {<<b, o[b]>> : b \in {x \in Byte : x = 0 \/ o[x] # o[x - 1]}}
Row == IF s.c \in EndCtl THEN [s |-> Key(s), g |-> "end"]
       ELSE [s |-> Key(s), g |-> Group(s), w |-> Phase(s), cnt |-> s.c \in PayCtl, r |-> Runs]

PrintRow == Export => PrintT("ROW" \o ToJson(Row))
ASSUME Export => PrintT("META" \o ToJson([maxlen |-> MaxLen, args |-> EventArgs,
                                          data |-> DataTokens, inplace |-> DataTokens, regs |-> [r \in RegTokens |-> RegBase(r)],
                                          events |-> EventTokens, kinds |-> {"PayloadLength"},
                                          init |-> Key(Start)]))
=============================================================================

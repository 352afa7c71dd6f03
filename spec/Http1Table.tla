----------------------------- MODULE Http1Table -----------------------------
(***************************************************************************)
(* Explores every reachable state of the HTTP/1.x reference machine under  *)
(* every byte, checks invariants of the machine on every transition, and   *)
(* prints the transition row of every state (used to drive the real        *)
(* parser: see /verif/harness).                                            *)
(***************************************************************************)
EXTENDS Http1Memory, TLC, Json, MCBoundaries

CONSTANT Export

VARIABLE s

Init == s \in {Fresh, InitHead, InitChunked}
              \cup {InitMulti(i) : i \in 1..Len(Boundaries)}
              \cup {InitUrl(n) : n \in 0..BIG}

StartLine  == s.c \in StartCtl  /\ \E b \in Byte : s' = Step(s, b).nx
HeaderLine == s.c \in HeaderCtl /\ \E b \in Byte : s' = Step(s, b).nx
ChunkedBody == s.c \in ChunkCtl /\ \E b \in Byte : s' = Step(s, b).nx
Multipart  == s.c \in MultiCtl \ {"Ask"} /\ \E b \in Byte : s' = Step(s, b).nx
AskLength  == s.c = "Ask" /\ \E n \in Answers : s' = Answer(s, n)
\* one of the many bytes of a BIG length has been used up, and MaxLen are left
Counted(t) == t.c \in {"ChunkData", "PartData"} \cup UrlCtl
Shrink     == Counted(s) /\ s.len = BIG /\ s' = [s EXCEPT !.len = MaxLen]
UrlEncoded == s.c \in UrlCtl /\ \E b \in Byte : s' = Step(s, b).nx
EmptyUrl   == s.c = "UEmpty" /\ s' = UrlEmptyEnd.nx

Next == StartLine \/ HeaderLine \/ ChunkedBody \/ Multipart \/ AskLength \/ UrlEncoded \/ EmptyUrl \/ Shrink

Spec == Init /\ [][Next]_s

(***************************************************************************)
(* Invariants, evaluated on every transition of every reachable state.     *)
(***************************************************************************)
Toks(r) == {r.ev[i] : i \in 1..Len(r.ev)}
Stepping == s.c \notin EndCtl \cup {"Ask", "UEmpty"}
Tok == DataTokens \cup RegTokens \cup EventTokens

TypeInv == TypeOK(s) /\ (s.c \notin EndCtl => MemoryBound(s))

StepInv == Stepping => \A b \in Byte :
    LET r == Step(s, b) IN
    /\ MemoryStep(s, b)
    /\ TypeOK(r.nx)
    /\ r.er \in ErrorKinds \cup {""}
    /\ (r.er # "") <=> (r.nx = Dead)                         \* errors, and only errors, are final
    /\ \A t \in Toks(r) : t[1] \in Tok /\ t[2] \in Byte
    \* names are delivered in lower case
    /\ \A t \in Toks(r) : t[1] \in {"hname", "xname"} => ~IsUpper(t[2])
    \* no line ending or other control byte ever reaches a text callback undecoded
    /\ \A t \in Toks(r) : t[1] \in {"method", "url", "status", "hname", "hvalue", "xname", "xvalue"}
                            => (IsText(t[2]) \/ t[2] = TAB)
    \* a message ends exactly with its closing event
    /\ (r.nx = Done) <=> (r.ev # <<>> /\ (r.ev[Len(r.ev)] = E("body_finished")
                                           \/ (s.ty = "head" /\ r.ev[Len(r.ev)] = E("headers_finished"))))
    \* and each closing event is reported at most once per step
    /\ \A e \in {"body_finished", "headers_finished", "initial_finished", "multipart_begin"} :
         \A i, j \in 1..Len(r.ev) : r.ev[i] = E(e) /\ r.ev[j] = E(e) => i = j
    \* body bytes are data only while bytes of that body are due
    /\ \A t \in Toks(r) : t[1] = "chunk" => s.c = "ChunkData" /\ s.len > 0 /\ t[2] = b
    /\ (s.c = "ChunkData" => r.er = "" /\ r.ev = <<T("chunk", b)>>)
    /\ (s.c = "PartData" => r.er = "" /\ r.ev = <<T("part", b)>>)
    \* a URL-encoded body never outlives its length
    /\ (s.ty = "url" /\ s.len = 1 => r.nx \in {Done, Dead})

(***************************************************************************)
(* Export: runs of bytes with the same normalised outcome.                 *)
(***************************************************************************)
\* values are written "=" for the input byte, "^" for its lower case
Norm(b, ev) == [i \in 1..Len(ev) |-> <<ev[i][1],
                   IF ev[i][1] \in DataTokens
                   THEN IF ev[i][2] = b THEN -1 ELSE IF ev[i][2] = b + 32 THEN -2 ELSE ev[i][2]
                   ELSE IF ev[i][1] \in {"#maj", "#min", "#code"} /\ ev[i][2] = b - 48 THEN -3
                   ELSE ev[i][2]>>]
Outcome(b) == LET r == Step(s, b) IN
    <<r.er, <<r.nx.c, r.nx.ty, r.nx.len, r.nx.bd, r.nx.k>>, Norm(b, r.ev)>>
Runs == LET o == [b \in Byte |-> Outcome(b)]
        IN {<<b, o[b]>> : b \in {x \in Byte : x = 0 \/ o[x] # o[x - 1]}}

Key(t) == <<t.c, t.ty, t.len, t.bd, t.k>>
Row == IF s.c \in EndCtl THEN [s |-> Key(s), g |-> "end"]
       ELSE IF s.c = "Ask" THEN [s |-> Key(s), g |-> Group(s),
                                 a |-> [n \in 1..(BIG + 2) |-> Key(Answer(s, n - 2))]]
       ELSE IF s.c = "UEmpty" THEN [s |-> Key(s), g |-> Group(s), z |-> UrlEmptyEnd.ev, zn |-> Key(UrlEmptyEnd.nx)]
       ELSE [s |-> Key(s), g |-> Group(s), w |-> Phase(s), h |-> Held(s), cnt |-> Counted(s), r |-> Runs]

PrintRow == Export => PrintT("ROW" \o ToJson(Row))
ASSUME Export => PrintT("META" \o ToJson([maxlen |-> MaxLen, boundaries |-> Boundaries, args |-> EventArgs,
                                          data |-> DataTokens, inplace |-> InPlace, regs |-> [r \in RegTokens |-> RegBase(r)],
                                          events |-> EventTokens, kinds |-> ErrorKinds,
                                          init |-> [fresh |-> Key(Fresh), head |-> Key(InitHead),
                                                    chunked |-> Key(InitChunked),
                                                    multi |-> [i \in 1..Len(Boundaries) |-> Key(InitMulti(i))],
                                                    url |-> [n \in 1..(BIG + 1) |-> Key(InitUrl(n - 1))]]]))
=============================================================================

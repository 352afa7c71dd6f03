----------------------------- MODULE Http1Order -----------------------------
(***************************************************************************)
(* The machine with a history: the parts reported since the last beginning *)
(* of a run (the head, a chunk, the trailer, a part, a pair).  The first   *)
(* report of a part never comes after one that is listed behind it.        *)
(***************************************************************************)
EXTENDS Http1, FiniteSets

Text == INSTANCE Text
OrderBoundaries == << <<98>> >>

VARIABLES s, seen, bad

Init == /\ s \in {InitHead, InitChunked, InitMulti(1), InitUrl(3), InitUrl(MaxLen)}
        /\ seen = {} /\ bad = {}

\* in the order of the tokens: what is seen, and what came too late
RECURSIVE Walk(_, _, _, _)
Walk(ev, i, sn, bd) ==
    IF i > Len(ev) THEN <<sn, bd>>
    ELSE IF ev[i][1] \in Text!Opens THEN Walk(ev, i + 1, {}, bd)
    \* an extension may lack a part, which the next one has
    ELSE IF ev[i][1] = "ext_finished" THEN Walk(ev, i + 1, sn \cup {"ChunkExtensionName", "ChunkExtensionValue"}, bd)
    ELSE LET p == Text!PartOf(ev[i][1], s.c \in {"PMin2", "PMin3", "PEnd"}) IN
         IF p = "None" \/ p \in sn THEN Walk(ev, i + 1, sn, bd)
         ELSE Walk(ev, i + 1, sn \cup {p}, bd \cup {<<q, p>> : q \in {q \in sn : ~Text!Ordered(q, p)}})

\* after the last chunk the trailer begins, which is like a head without its line; a line of the
\* header may lack a part, which the next one has
Base(nx) == IF nx.c # "Hdr" THEN seen
            ELSE IF "ChunkLength" \in seen THEN {}
            ELSE IF s.c = "HdrLf" THEN seen \cup {"HeaderName", "HeaderValue"} ELSE seen
Take(r) == LET w == Walk(r.ev, 1, Base(r.nx), bad) IN s' = r.nx /\ seen' = w[1] /\ bad' = w[2]

Next == \/ s.c \notin EndCtl \cup {"Ask", "UEmpty"} /\ \E b \in Byte : Take(Step(s, b))
        \/ s.c = "Ask" /\ \E n \in Answers : s' = Answer(s, n) /\ UNCHANGED <<seen, bad>>
Spec == Init /\ [][Next]_<<s, seen, bad>>

InOrder == bad = {}
ASSUME Text!Acyclic
ASSUME ErrorKinds \subseteq Text!ByteErrors
=============================================================================

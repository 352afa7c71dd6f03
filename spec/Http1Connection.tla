--------------------------- MODULE Http1Connection ---------------------------
(***************************************************************************)
(* A receiver that is made of the machines of Http1 and Util, as a user of *)
(* the library would make it: it reads a head, finds out from the fields   *)
(* what kind of body follows, reads that, and begins anew.                 *)
(*                                                                         *)
(* Messages are written one behind the other.  After each of them the      *)
(* receiver has learnt what its sender meant, nothing more and nothing     *)
(* less, and it is as it was before the first one: so the same holds for   *)
(* any messages in any order.                                              *)
(***************************************************************************)
EXTENDS Http1Push, Http1Messages, Json, TLC, IOUtils

CONSTANTS Count, Chains, Export

ConnBoundaries == << <<98>>, B("----WebKitFormBoundary7MA4YWxk"), B("--"), B("a b:c?d=(e)"), B("-b-b"),
                     B("x\"y\\z,;0123456789"), B("gc0pJq0M:08jU534c0p+_./'()0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHI") >>
\* and some that are drawn
ConnDrawn == ConnBoundaries \o [j \in 1..6 |-> <<Pick(j, 1, Tokens)>> \o
                                 Chars(j, 2, IF j = 1 THEN 70 ELSE IF j < 4 THEN 12 ELSE 5,
                                       IF j % 3 = 0 THEN Tokens ELSE <<HYPHEN, 97, 98, 66, SP, 39, HYPHEN>>) \o <<Pick(j, 3, Tokens)>>]

V == INSTANCE Util
P == INSTANCE Push WITH MStep <- H1Step, MSettle <- LAMBDA q : [q |-> q, ev |-> <<>>], MFinal <- H1Final,
                        MLook <- H1Look, MPhase <- H1Phase, MPiecewise <- H1Piecewise, MData <- DataTokens,
                        MRegs <- RegTokens, MArgs <- H1Args

(***************************************************************************)
(* The helpers of the library.                                             *)
(***************************************************************************)
Ran(q, t) == LET a == FoldLeft(LAMBDA a, b : LET r == IF a.er = "" THEN V!Step(a.q, b) ELSE [nx |-> a.q, ev |-> <<>>, er |-> a.er]
                                             IN [q |-> r.nx, ev |-> a.ev \o r.ev, er |-> r.er],
                               [q |-> q, ev |-> <<>>, er |-> ""], t)
                 e == V!End(a.q)
             IN IF a.er # "" THEN a ELSE [a EXCEPT !.ev = @ \o e.ev, !.er = e.er]
Decoding(t) == LET a == Ran(V!InitDecode, t) IN [i \in 1..Len(a.ev) |-> a.ev[i][2]]
\* the pairs that an iterator hands out
Pairing(q, t) ==
    LET a == Ran(q, t)
        f == FoldLeft(LAMBDA p, e : CASE e[1] = "name"  -> [p EXCEPT !.name = Append(@, e[2])]
                                      [] e[1] = "value" -> [p EXCEPT !.value = Append(@, e[2])]
                                      [] OTHER -> [out |-> Append(p.out, [name |-> p.name, has |-> e[1] = "item_v",
                                                                          value |-> p.value]),
                                                   name |-> <<>>, value |-> <<>>],
                      [out |-> <<>>, name |-> <<>>, value |-> <<>>], a.ev)
    IN f.out

(***************************************************************************)
(* What the receiver has learnt: bytes of one kind that come one after the *)
(* other are one item.                                                     *)
(***************************************************************************)
Learn(rep, t) == IF t[1] \in DataTokens /\ rep # <<>> /\ rep[Len(rep)][1] = t[1]
                 THEN [rep EXCEPT ![Len(rep)][2] = @ \o t[2]] ELSE Append(rep, t)

\* the fields since the line or the beginning of the part, and the value of one
Latest(rep, Is(_)) == CHOOSE i \in 0..Len(rep) : (i = 0 \/ Is(rep[i][1])) /\ \A j \in (i + 1)..Len(rep) : ~Is(rep[j][1])
Since(rep) == LET i == Latest(rep, LAMBDA x : x \in {"initial_finished", "multipart_begin"}) IN SubSeq(rep, i + 1, Len(rep))
Look(fs, name) == LET at == {i \in 1..(Len(fs) - 1) : fs[i] = <<"hname", B(name)>>} IN
                  IF at = {} THEN <<>> ELSE fs[(CHOOSE i \in at : TRUE) + 1][2]
Num(t) == IF t = <<>> THEN -1 ELSE FoldLeft(LAMBDA n, b : n * 10 + b - 48, 0, t)

Idle == [st |-> "head", q |-> H1State(InitHead, <<>>), left |-> 0, er |-> "", rep |-> <<>>]
Again(d, rep) == [Idle EXCEPT !.rep = rep]
Body(d, rep, m) == [d EXCEPT !.st = "body", !.q = H1State(m, <<>>), !.rep = rep]

\* the end of a head
Choose(d, rep) ==
    LET fs == Since(rep)
        type == Pairing(V!InitField(SEMI, TRUE), Look(fs, "content-type"))
        given == [i \in 1..Len(type) |-> type[i].name]
        bs == SelectSeq(type, LAMBDA p : p.name = B("boundary") /\ p.has)
        len == Num(Look(fs, "content-length"))
        url == SelectSeq(rep, LAMBDA i : i[1] = "url")
        k == CHOOSE k \in 1..(Len(url[1][2]) + 1) : (k > Len(url[1][2]) \/ url[1][2][k] = 63)
                                                    /\ \A j \in 1..(k - 1) : url[1][2][j] # 63
        asked == Pairing(V!InitQuery, SubSeq(url[1][2], k + 1, Len(url[1][2])))
        all == IF url = <<>> THEN rep
               ELSE rep \o Item("path", Decoding(SubSeq(url[1][2], 1, k - 1)))
                    \o Flat([i \in 1..Len(asked) |-> Item("query-name", asked[i].name)
                                 \o (IF asked[i].has THEN Item("query-value", asked[i].value) ELSE <<>>)])
    IN IF Look(fs, "transfer-encoding") = B("chunked") THEN Body(d, all, InitChunked)
       ELSE IF given # <<>> /\ given[1] = B("multipart/form-data")
       THEN LET at == {i \in 1..Len(Boundaries) : bs # <<>> /\ Boundaries[i] = bs[1].value} IN
            IF at = {} THEN [d EXCEPT !.er = "boundary"] ELSE Body(d, all, InitMulti(CHOOSE i \in at : TRUE))
       ELSE IF given # <<>> /\ given[1] = B("application/x-www-form-urlencoded")
       THEN IF len = 0 THEN Again(d, Append(all, <<"body_finished", <<>>>>)) ELSE Body(d, all, InitUrl(len))
       ELSE IF len > 0 THEN [d EXCEPT !.st = "raw", !.left = len, !.rep = all]
       ELSE Again(d, all)

Take(d, b) ==
    IF d.er # "" THEN d
    ELSE IF d.st = "raw"
    THEN LET rep == IF d.rep[Len(d.rep)][1] = "raw" THEN [d.rep EXCEPT ![Len(d.rep)][2] = Append(@, b)]
                    ELSE Append(d.rep, <<"raw", <<b>>>>)
         IN IF d.left = 1 THEN Again(d, rep) ELSE [d EXCEPT !.left = @ - 1, !.rep = rep]
    ELSE LET a == P!FeedByte([q |-> d.q, toks |-> <<>>, er |-> "", k |-> 0, last |-> 0, at |-> d.q], b)
             rep == FoldLeft(Learn, d.rep, a.toks)
         IN IF a.er # "" THEN [d EXCEPT !.er = a.er, !.rep = rep]
            ELSE IF a.q.m.c = "Ask"
            THEN LET fs == Since(rep)
                     who == SelectSeq(Pairing(V!InitField(SEMI, TRUE), Look(fs, "content-disposition")),
                                      LAMBDA p : p.name = B("name") /\ p.has)
                 IN [d EXCEPT !.q = [a.q EXCEPT !.m = Answer(a.q.m, Num(Look(fs, "content-length"))), !.parts = 0],
                              !.rep = IF who = <<>> THEN rep ELSE Append(rep, <<"part-name", who[1].value>>)]
            ELSE IF ~H1Final(a.q) THEN [d EXCEPT !.q = [a.q EXCEPT !.parts = 0], !.rep = rep]
            ELSE IF d.st = "head" THEN Choose(d, rep) ELSE Again(d, rep)

(***************************************************************************)
VARIABLES n, d
vars == <<n, d>>

Init == n \in {c * (Count \div Chains) : c \in 0..(Chains - 1)} /\ d = Idle
Next == /\ (n + 1) % (Count \div Chains) # 0
        /\ n' = n + 1
        /\ d' = FoldLeft(Take, [d EXCEPT !.rep = <<>>], Written(Msg(n')))
Spec == Init /\ [][Next]_vars

Began == n % (Count \div Chains) = 0
\* nothing is lost, nothing is made up, nothing is left over
Understood == Began \/ d.rep = Report(Msg(n))
Ready == [d EXCEPT !.rep = <<>>] = Idle

PrintMsg == Began \/ ~Export \/ PrintT("MSG" \o ToJson([w |-> Written(Msg(n)), r |-> Report(Msg(n)), s |-> Stretch(Msg(n))]))
=============================================================================

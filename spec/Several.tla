------------------------------- MODULE Several -------------------------------
(***************************************************************************)
(* Several parsers used by turns.  A call begins and returns; between that *)
(* - in one of its callbacks - calls of the other parsers may begin and    *)
(* return.  What a call does is ruled by its own parser alone, so          *)
(*                                                                         *)
(*   Alone1, Alone2  each parser does nothing but what PushModel lets it   *)
(*                   do if there is no other                               *)
(*   Nested          calls return in the opposite order of their beginning *)
(*                                                                         *)
(* Recorded calls of several parsers are checked by the same rule: a line  *)
(* of Http1Trace or Http2Trace is about one parser and leaves the others   *)
(* as they are.                                                            *)
(***************************************************************************)
EXTENDS Http1Push, SequencesExt, FiniteSets

CONSTANTS MaxSlice, Less

SeveralBoundaries == << <<98>> >>

At(s, ans, sigma, n) == [q |-> H1State(s, ans), sigma |-> sigma, n |-> n]
In(c) == [InitHead EXCEPT !.c = c]
InM(c, i) == [InitMulti(i) EXCEPT !.c = c, !.len = 0]

Contexts ==
  << At([InitChunked EXCEPT !.c = "Len2", !.len = 1], <<>>, {CR, LF}, 2),
     At(InM("ScanLf", 1), <<>>, {65, LF}, 2),
     At([InitUrl(2) EXCEPT !.c = "UValueH1"], <<>>, {65, AMP}, 2) >>

VARIABLES s,      \* what every parser has been through
          open    \* calls that have begun and not returned: [id, in, used: others were used inside]
vars == <<s, open>>

Ids == 1..2
M(i) == INSTANCE PushModel WITH MStep <- H1Step, MSettle <- H1Settle, MFinal <- H1Final, MLook <- H1Look,
                                MPhase <- H1Phase, MPiecewise <- H1Piecewise, MData <- DataTokens,
                                MRegs <- RegTokens, MArgs <- H1Args,
                                x <- s[i].x, p <- s[i].p, seen <- s[i].seen, rest <- s[i].rest,
                                got <- s[i].got, last <- s[i].last
P == INSTANCE Push WITH MStep <- H1Step, MSettle <- H1Settle, MFinal <- H1Final, MLook <- H1Look,
                        MPhase <- H1Phase, MPiecewise <- H1Piecewise, MData <- DataTokens, MRegs <- RegTokens,
                        MArgs <- H1Args

Init == /\ open = <<>>
        /\ s \in [Ids -> {[x |-> k, p |-> P!Parser(Contexts[k].q, 0), seen |-> <<>>, rest |-> <<>>,
                           got |-> <<>>, last |-> "none"] : k \in 1..Len(Contexts)}]
        /\ s[1].x < s[2].x

Begin(i) ==
    /\ \A k \in 1..Len(open) : open[k].id # i
    /\ \E in \in M(i)!Slices : M(i)!Room(in) /\
         open' = Append([k \in 1..Len(open) |-> [open[k] EXCEPT !.used = TRUE]],
                        [id |-> i, in |-> in, used |-> FALSE])
    /\ UNCHANGED s

\* another parser can only have been used inside if there was a callback
Return == open # <<>> /\
    LET c == open[Len(open)]
        i == c.id
    IN \E o \in M(i)!Candidates(c.in) :
         /\ P!ResumeOK(s[i].p, o)
         /\ c.used => o.d # <<>>
         /\ open' = SubSeq(open, 1, Len(open) - 1)
         /\ s' = [s EXCEPT ![i] = [x |-> @.x, p |-> P!ResumeTo(@.p, o),
                                   seen |-> @.seen \o SubSeq(c.in, 1, M(i)!Used(o)),
                                   rest |-> IF o.ret = "callback" THEN P!Suffix(c.in, o.n) ELSE <<>>,
                                   got |-> @.got \o o.d,
                                   last |-> IF o.ret = "eos" /\ c.in = <<>> THEN "empty" ELSE o.ret]]

Next == Return \/ \E i \in Ids : Begin(i)
Spec == Init /\ [][Next]_vars

Alone1 == M(1)!Spec
Alone2 == M(2)!Spec
Delivered == \A i \in Ids : M(i)!Eventual /\ M(i)!Order /\ M(i)!Count /\ M(i)!Ends
Nested == Len(open) <= 2 /\ (Len(open) = 2 => open[1].used /\ ~open[2].used)
Apart == [][\A i, j \in Ids : s'[i] # s[i] /\ s'[j] # s[j] => i = j]_vars
=============================================================================

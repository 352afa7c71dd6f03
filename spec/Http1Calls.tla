----------------------------- MODULE Http1Calls -----------------------------
(***************************************************************************)
(* PushModel for HTTP/1.x, in contexts where slices and interruptions are  *)
(* delicate.                                                               *)
(***************************************************************************)
EXTENDS Http1Push, SequencesExt, FiniteSets

CONSTANTS MaxSlice, Less

CallBoundaries == << <<98>>, <<45, 98>> >>

\* in a state, with the bytes of interest
At(s, ans, sigma, n) == [q |-> H1State(s, ans), sigma |-> sigma, n |-> n]
In(c) == [InitHead EXCEPT !.c = c]
InM(c, i) == [InitMulti(i) EXCEPT !.c = c, !.len = 0]

Contexts ==
  << At(InitHead, <<>>, {72, 84, 80, 47, SP}, 5),                     \* H T P / blank
     At(In("Code3"), <<>>, {50, SP, 65, CR, LF}, 4),
     At(In("Status1"), <<>>, {65, CR, LF, 0}, 4),
     At(In("Url1"), <<>>, {65, SP, 72, 0}, 4),
     At(In("Hdr"), <<>>, {65, 58, CR, LF, SP}, 5),
     At(In("Strip"), <<>>, {QUOTE, BSLASH, 65, CR, LF}, 4),
     At(InitChunked, <<>>, {49, 48, SEMI, CR, LF}, 5),
     At([InitChunked EXCEPT !.c = "ChunkData", !.len = 2], <<>>, {65, CR, LF, 48}, 5),
     At([InitChunked EXCEPT !.c = "ExtStrip"], <<>>, {65, EQ, QUOTE, SEMI, CR}, 4),
     At([InitChunked EXCEPT !.c = "ExtQuoted", !.len = 1], <<>>, {65, BSLASH, QUOTE, CR, LF}, 4),
     At(InM("Scan", 1), <<>>, {65, CR, LF, HYPHEN, 98}, 5),
     At(InM("Hy1", 2), <<>>, {CR, HYPHEN, 98}, 5),
     At(InM("BndEnd", 1), <<1, 0>>, {65, CR, LF, HYPHEN}, 6),
     At(InM("BndEnd", 1), <<0>>, {CR, LF, HYPHEN}, 6),
     At(InM("EndLf", 1), <<-1>>, {65, CR, LF, HYPHEN}, 5),
     At(InitUrl(0), <<>>, {65}, 1),
     At(InitUrl(3), <<>>, {65, EQ, AMP, PERCENT, 52}, 4),
     At([InitUrl(2) EXCEPT !.c = "UValueH1"], <<>>, {65, EQ, AMP, PERCENT, 0}, 3) >>


VARIABLES x, p, seen, rest, got, last
M == INSTANCE PushModel WITH MStep <- H1Step, MSettle <- H1Settle, MFinal <- H1Final, MLook <- H1Look,
                             MPhase <- H1Phase, MPiecewise <- H1Piecewise, MData <- DataTokens,
                             MRegs <- RegTokens, MArgs <- H1Args
Spec == M!Spec
Eventual == M!Eventual
Order == M!Order
Count == M!Count
Ends == M!Ends
Final == M!Final
Progress == M!Progress
=============================================================================

----------------------------- MODULE Http2Calls -----------------------------
(***************************************************************************)
(* PushModel for HTTP/2: frames from their last header byte on, in their   *)
(* fields, at the end of their payloads and in their padding.              *)
(***************************************************************************)
EXTENDS Http2Push, SequencesExt, FiniteSets

CONSTANTS MaxSlice, Less

At(s, sigma, n) == [q |-> [H2State EXCEPT !.m = s], sigma |-> sigma, n |-> n]

Contexts ==
  << At(State("Len1", 0, 0, 0, 0, 0), {0, 255}, 3),
     At(State("Sid1", PING, 0, 1, 0, 0), {0, 128}, 5),
     At(State("Sid4", DATA, 0, 0, 0, 0), {0, 1}, 4),
     At(State("Sid4", DATA, 0, 2, 0, 0), {0, 1}, 4),
     At(State("Sid4", DATA, 1, 3, 0, 0), {0, 1, 2, 3}, 5),
     At(State("Sid4", CONTINUATION, 0, 1, 0, 0), {0, 1}, 4),
     At(State("Sid4", UNKNOWN, 1, 2, 0, 0), {0, 1, 2}, 5),
     At(State("Pad", HEADERS, 1, 3, 0, 0), {0, 1, 2, 3}, 5),
     At(State("Weight", HEADERS, 2, 2, 1, 0), {0, 200}, 4),
     At(State("Dep4", HEADERS, 2, 3, 0, 0), {0, 1}, 4),
     At(State("Dep4", PRIORITY, 0, 2, 0, 0), {0, 1}, 4),
     At(State("Dep4", PUSH_PROMISE, 0, 2, 1, 0), {0, 1}, 4),
     At(State("Code4", RST_STREAM, 0, 1, 0, 0), {0, 1}, 3),
     At(State("Code4", GO_AWAY, 0, 2, 0, 0), {0, 1}, 4),
     At(State("Code4", GO_AWAY, 0, 1, 0, 0), {0, 1}, 3),
     At(State("Val4", SETTINGS, 0, 1, 0, 0), {0, 1}, 3),
     At(State("Val4", WINDOW_UPDATE, 0, 1, 0, 0), {0, 1}, 3),
     At(State("Padding", 0, 0, 2, 0, 0), {0, 1}, 4) >>

VARIABLES x, p, seen, rest, got, last
M == INSTANCE PushModel WITH MStep <- H2Step, MSettle <- H2Settle, MFinal <- H2Final, MLook <- H2Look,
                             MPhase <- H2Phase, MPiecewise <- H2Piecewise, MData <- DataTokens,
                             MRegs <- RegTokens, MArgs <- H2Args
Spec == M!Spec
Eventual == M!Eventual
Order == M!Order
Count == M!Count
Ends == M!Ends
Final == M!Final
Progress == M!Progress
=============================================================================

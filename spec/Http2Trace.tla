----------------------------- MODULE Http2Trace -----------------------------
(***************************************************************************)
(* Checks calls recorded from the real HTTP/2 parser; see Http1Trace.      *)
(***************************************************************************)
EXTENDS Http2Push, TLC, TraceFile, SequencesExt

P == INSTANCE Push WITH MStep <- H2Step, MSettle <- H2Settle, MFinal <- H2Final, MLook <- H2Look,
                        MPhase <- H2Phase, MPiecewise <- H2Piecewise, MData <- DataTokens, MRegs <- RegTokens,
                        MArgs <- H2Args

VARIABLES l, ps        \* ps: what every parser of the trace is up to
vars == <<l, ps>>

Line == Trace[l]
\* the parser that a line is about; a line says nothing about the others
Ids == 1..3
Id == IF "id" \in DOMAIN Line THEN Line.id ELSE 1
p == ps[Id]
Becomes(q) == ps' = [ps EXCEPT ![Id] = q]
IsOp(o) == l <= Len(Trace) /\ Line.op = o /\ l' = l + 1

TInit == l = 2 /\ ps = [i \in Ids |-> P!Parser(H2State, 0)]
NewParser == IsOp("new") /\ Line.count = 0 /\ Line.state = "open" /\ Becomes(P!Parser(H2State, 0))
Reset == IsOp("init") /\ Line.count = 0 /\ Line.state = "open" /\ Becomes(P!Parser(H2State, 0))
TResume == IsOp("resume") /\ P!ResumeOK(p, Line) /\ Becomes(P!ResumeTo(p, Line))

TNext == NewParser \/ Reset \/ TResume
TSpec == TInit /\ [][TNext]_vars

\* lengths of 24 bits never saturate
Exact == \A i \in Ids : ps[i].q.m.len < BIG

TraceAccepted == TLCGet("stats").diameter = Len(Trace)
Accepted == PrintT("TRACE " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace))) /\ TraceAccepted
=============================================================================

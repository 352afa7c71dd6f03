----------------------------- MODULE Http1Trace -----------------------------
(***************************************************************************)
(* Checks calls recorded from the real HTTP/1.x parser: every line is one  *)
(* public call with its arguments, callbacks and result.                   *)
(*                                                                         *)
(* op "new" makes a parser, "init" prepares it for a message (kind head,   *)
(* chunked, multi or url), "resume" feeds it a slice.  A multipart "init"  *)
(* names its boundary by its position in the first line of the trace.      *)
(***************************************************************************)
EXTENDS Http1Push, TLC, TraceFile, SequencesExt

TraceBoundaries == Trace[1].boundaries

P == INSTANCE Push WITH MStep <- H1Step, MSettle <- H1Settle, MFinal <- H1Final, MLook <- H1Look,
                        MPhase <- H1Phase, MPiecewise <- H1Piecewise, MData <- DataTokens, MRegs <- RegTokens,
                        MArgs <- H1Args

VARIABLES l, ps        \* ps: what every parser of the trace is up to
vars == <<l, ps>>

Line == Trace[l]
\* the parser that a line is about; a line says nothing about the others
Ids == 1..3
Id == IF "id" \in DOMAIN Line THEN Line.id ELSE 1
p == ps[Id]
Becomes(q) == ps' = [ps EXCEPT ![Id] = q]
IsOp(o) == l <= Len(Trace) /\ Line.op = o /\ l' = l + 1

TInit == l = 2 /\ ps = [i \in Ids |-> P!Parser(H1State(Fresh, <<>>), 0)]

NewParser == IsOp("new") /\ Line.count = 0 /\ Line.state = "open"
             /\ Becomes(P!Parser(H1State(Fresh, <<>>), 0))

\* preparing a parser does not change the bytes counted
InitMessage == IsOp("init") /\ Line.count = p.count /\ Line.state = "open"
    /\ Becomes(P!Parser(H1State(CASE Line.kind = "head"    -> InitHead
                                  [] Line.kind = "chunked" -> InitChunked
                                  [] Line.kind = "multi"   -> InitMulti(Line.arg)
                                  [] Line.kind = "url"     -> InitUrl(Line.arg), Line.ans), p.count))

TResume == IsOp("resume") /\ P!ResumeOK(p, Line) /\ Becomes(P!ResumeTo(p, Line))

TNext == NewParser \/ InitMessage \/ TResume
TSpec == TInit /\ [][TNext]_vars

TraceAccepted == TLCGet("stats").diameter = Len(Trace)
Accepted == PrintT("TRACE " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace))) /\ TraceAccepted
=============================================================================

-------------------------------- MODULE Push --------------------------------
(***************************************************************************)
(* The push interface: resume(slice) on top of a byte machine.             *)
(*                                                                         *)
(* A machine state is [m, regs, parts, ans]: the state of Http1 or Http2,  *)
(* the digits read for the numbers of the next event, the number of the    *)
(* multipart part, and the handler's answers to content_length().          *)
(*                                                                         *)
(* What a call does is described by its outcome: the callbacks it made,    *)
(* the bytes it consumed and its result.  Callbacks that deliver bytes may *)
(* deliver any number of them at once, so a call is compared by tokens:    *)
(* <<name, values>>.                                                       *)
(*                                                                         *)
(*   Eos(n)       all n bytes of the slice consumed, everything due is     *)
(*                delivered, no callback returned FALSE                    *)
(*   Callback(n)  the last callback, and only that, returned FALSE         *)
(*   Finished(n)  the message ended with byte n                            *)
(*   Err          a byte is wrong; no later call does anything             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS MStep(_, _),      \* machine step: [nx, ev, er]
          MSettle(_),       \* steps without a byte: [q, ev]
          MFinal(_),        \* the message has ended
          MLook(_),         \* bytes a callback may depend on beyond the consumed ones
          MPhase(_),        \* the part of a message that state() names
          MPiecewise(_),    \* bytes are compared in pieces: no exact error position
          MData, MRegs,     \* names of data and register tokens
          MArgs(_)          \* registers an event reports

\* numbers are compared as digits, most significant first
RECURSIVE StripZeros(_)
StripZeros(d) == IF d # <<>> /\ Head(d) = 0 THEN StripZeros(Tail(d)) ELSE d

RECURSIVE JoinArgs(_, _)
JoinArgs(regs, names) ==
    IF names = <<>> THEN <<>>
    ELSE StripZeros(regs[Head(names)]) \o (IF Len(names) = 1 THEN <<>> ELSE <<-1>>)
         \o JoinArgs(regs, Tail(names))

NoRegs == [r \in MRegs |-> <<>>]

\* add the raw tokens of one step: registers are collected, events get their arguments
Collect(acc, t) ==
    IF t[1] \in MRegs THEN [acc EXCEPT !.regs[t[1]] = Append(@, t[2])]
    ELSE IF t[1] \in MData THEN [acc EXCEPT !.toks = Append(@, <<t[1], <<t[2]>>>>)]
    ELSE LET a == MArgs(t[1]) IN
         [acc EXCEPT !.toks = Append(@, <<t[1], JoinArgs(acc.regs, a)>>),
                     !.regs = IF a = <<>> THEN @ ELSE NoRegs]

(***************************************************************************)
(* Feeding a sequence of bytes to the machine; stops at an error or at the *)
(* end of the message.  k counts the bytes used, last the tokens that the  *)
(* last of them caused.                                                    *)
(***************************************************************************)
FeedByte(acc, b) ==
    IF acc.er # "" \/ MFinal(acc.q) THEN acc
    ELSE LET r == MStep(acc.q, b)
             st == IF r.er = "" THEN MSettle(r.nx) ELSE [q |-> r.nx, ev |-> <<>>]
             c == FoldLeft(Collect, [toks |-> acc.toks, regs |-> acc.q.regs], r.ev \o st.ev)
         IN [q |-> [st.q EXCEPT !.regs = c.regs], toks |-> c.toks, er |-> r.er, k |-> acc.k + 1,
             last |-> Len(c.toks) - Len(acc.toks), at |-> acc.q]

Feed(q, er, bytes) == FoldLeft(FeedByte, [q |-> q, toks |-> <<>>, er |-> er, k |-> 0, last |-> 0, at |-> q],
                               bytes)

(***************************************************************************)
(* The parser: machine state, tokens due but not delivered, tokens         *)
(* delivered ahead of the byte they belong to, an error that is not        *)
(* reported yet because a callback of the same byte interrupted the call,  *)
(* and what ended it.                                                      *)
(***************************************************************************)
Parser(q, count) == LET st == MSettle(q) IN
    [q |-> st.q, owed |-> FoldLeft(Collect, [toks |-> <<>>, regs |-> NoRegs], st.ev).toks,
     ahead |-> <<>>, er |-> "", end |-> "open", count |-> count]

Min2(x, y) == IF x < y THEN x ELSE y
Suffix(s, n) == SubSeq(s, n + 1, Len(s))

\* everything delivered and not accounted for, against everything due
Match(p, due, delivered) ==
    LET x == p.ahead \o delivered IN
    [ok    |-> IF Len(x) <= Len(due) THEN IsPrefix(x, due) ELSE IsPrefix(due, x),
     owed  |-> IF Len(x) <= Len(due) THEN Suffix(due, Len(x)) ELSE <<>>,
     ahead |-> IF Len(x) <= Len(due) THEN <<>> ELSE Suffix(x, Len(due))]

\* rets: what the callbacks of the call returned
NoneFalse(rets) == \A i \in 1..Len(rets) : rets[i]
LastFalse(rets) == /\ rets # <<>> /\ ~rets[Len(rets)]
                   /\ \A i \in 1..(Len(rets) - 1) : rets[i]

OneField(toks) == \A i \in 1..Len(toks) : toks[i][1] \in MData /\ toks[i][1] = toks[1][1]

(***************************************************************************)
(* Outcomes of resume(in), each with the parser after it.                  *)
(* c is [in, d, rets, ret, n, er, byte, count, state].                     *)
(***************************************************************************)
EosOK(p, c, a, m) ==
    /\ c.n = Len(c.in) /\ NoneFalse(c.rets)
    /\ a.er = "" /\ ~MFinal(a.q)
    /\ m.ok /\ m.ahead = <<>> /\ (c.in # <<>> => m.owed = <<>>)
    /\ c.state = "open"
    /\ "where" \in DOMAIN c => MPhase(a.q) \in {c.where, "end"}

CallbackOK(p, c, a, m) ==
    /\ LastFalse(c.rets) /\ c.n <= Len(c.in)
    /\ a.k = c.n
    /\ m.ok
    /\ m.ahead # <<>> => LET look == Feed(a.q, a.er, SubSeq(c.in, c.n + 1, Min2(c.n + MLook(a.q), Len(c.in))))
                         IN IsPrefix(m.ahead, look.toks)
    /\ c.n > 0 => Len(m.owed) <= a.last
    /\ \/ c.state = "open"
       \/ c.state = "finished" /\ MFinal(a.q) /\ m.owed = <<>>

FinishedOK(p, c, a, m) ==
    /\ MFinal(a.q) /\ a.k = c.n /\ a.er = "" /\ NoneFalse(c.rets)
    /\ m.ok /\ m.owed = <<>> /\ m.ahead = <<>>
    /\ c.state = "finished"

ErrOK(p, c) ==
    LET b == Feed(p.q, p.er, c.in)
        m == Match(p, p.owed \o b.toks, c.d)
    IN /\ b.er # "" /\ b.er = c.er /\ NoneFalse(c.rets)
       /\ m.ok /\ m.ahead = <<>> /\ OneField(m.owed)
       /\ ~MPiecewise(b.at) => /\ c.count = p.count + b.k
                               /\ c.byte >= 0 /\ b.k > 0 => c.byte = c.in[b.k]
       /\ c.state = "dead"

ResumeOK(p, c) ==
    IF p.end = "dead" THEN /\ c.ret = "err" /\ c.er = "Dead" /\ c.d = <<>> /\ c.count = p.count
                           /\ c.state = "dead"
    ELSE IF p.end = "finished" THEN /\ c.ret = "finished" /\ c.n = 0 /\ c.d = <<>>
                                    /\ c.count = p.count /\ c.state = "finished"
    ELSE IF c.ret = "err" THEN ErrOK(p, c)
    ELSE c.n \in 0..Len(c.in) /\
         LET a == Feed(p.q, p.er, SubSeq(c.in, 1, c.n))
             m == Match(p, p.owed \o a.toks, c.d)
         IN /\ c.count = p.count + c.n
            /\ CASE c.ret = "eos"      -> EosOK(p, c, a, m)
                 [] c.ret = "callback" -> CallbackOK(p, c, a, m)
                 [] c.ret = "finished" -> FinishedOK(p, c, a, m)
                 [] OTHER              -> FALSE

\* the parser after a call with an acceptable outcome
ResumeTo(p, c) ==
    IF p.end # "open" THEN p
    ELSE IF c.ret = "err" THEN [p EXCEPT !.end = "dead", !.count = c.count, !.owed = <<>>, !.ahead = <<>>]
    ELSE LET a == Feed(p.q, p.er, SubSeq(c.in, 1, c.n))
             m == Match(p, p.owed \o a.toks, c.d)
         IN [q |-> a.q, owed |-> m.owed, ahead |-> m.ahead, er |-> a.er, count |-> c.count,
             end |-> IF c.ret = "finished" THEN "finished" ELSE "open"]
=============================================================================

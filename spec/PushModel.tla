----------------------------- MODULE PushModel ------------------------------
(***************************************************************************)
(* What the rules of Push say about single calls, they have to guarantee   *)
(* for histories of calls.  This explores every acceptable outcome of      *)
(* every sequence of calls (bounded), for some contexts: a parser that     *)
(* obeys the rules of Push at every call                                   *)
(*                                                                         *)
(*   Eventual  has delivered at every Eos exactly what one call with all   *)
(*             bytes would deliver: slices do not matter (C01, C14)        *)
(*   Order     never delivers anything else, twice or in another order,    *)
(*             whichever callbacks interrupt (C02, C14)                    *)
(*   Count     counts every byte (C03, C14)                                *)
(*   Ends      finishes or fails exactly where the bytes say so, and then  *)
(*   Final     never does anything again (C09, C03)                        *)
(*   Progress  can always go on: some outcome is acceptable                *)
(*                                                                         *)
(* A caller passes what was not consumed again, followed by more.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

CONSTANTS MStep(_, _), MSettle(_), MFinal(_), MLook(_), MPhase(_), MPiecewise(_), MData, MRegs, MArgs(_),
          Contexts,      \* sequence of [q: machine state, sigma: bytes, n: how many of them]
          MaxSlice,      \* most bytes of a slice
          Less           \* bytes fewer than n

P == INSTANCE Push

VARIABLES x,      \* number of the context
          p,      \* the parser
          seen,   \* bytes consumed
          rest,   \* bytes passed and not consumed
          got,    \* tokens delivered
          last    \* the result of the last call
vars == <<x, p, seen, rest, got, last>>

Ctx == Contexts[x]
New(k) == P!Parser(Contexts[k].q, 0)

Init == /\ x \in 1..Len(Contexts) /\ p = New(x)
        /\ seen = <<>> /\ rest = <<>> /\ got = <<>> /\ last = "none"

Slices == {s \in {rest \o t : t \in UNION {[1..k -> Ctx.sigma] : k \in 0..MaxSlice}} :
             Len(s) <= MaxSlice \/ s = rest}
Room(s) == Len(seen) + Len(s) <= Ctx.n - Less

\* every outcome that could be acceptable, and some that must not be
Candidates(in) ==
    LET f == P!Feed(p.q, p.er, in)
        all == p.owed \o f.toks
        D == IF p.end # "open" \/ Len(all) < Len(p.ahead) THEN <<>> ELSE P!Suffix(all, Len(p.ahead))
        Call(d, rets, ret, n, st) ==
            [in |-> in, d |-> d, rets |-> rets, ret |-> ret, n |-> n, state |-> st,
             er |-> IF ret # "err" THEN "" ELSE IF p.end = "dead" THEN "Dead" ELSE f.er,
             byte |-> IF ret = "err" /\ f.k > 0 THEN in[f.k] ELSE -1,
             count |-> p.count + (IF ret # "err" THEN n ELSE IF p.end = "dead" THEN 0 ELSE f.k)]
        \* what is due, and some that is not: a token left out, a token twice
        Starts == {SubSeq(D, 1, k) : k \in 0..Len(D)}
                  \cup (IF D = <<>> THEN {} ELSE {Tail(D), <<Head(D)>> \o D})
    IN {Call(d, <<>>, "err", 0, "dead") : d \in Starts}
       \cup {Call(d, <<>>, "eos", Len(in), st) : d \in Starts, st \in {"open", "finished"}}
       \cup {Call(d, <<>>, "finished", n, "finished") : d \in Starts, n \in 0..Len(in)}
       \cup {Call(d, <<FALSE>>, "callback", n, st) : d \in Starts \ {<<>>}, n \in 0..Len(in), st \in {"open", "finished"}}

Used(c) == IF c.ret = "err" THEN c.count - p.count ELSE c.n

Resume == \E in \in Slices : Room(in) /\ \E c \in Candidates(in) :
    /\ P!ResumeOK(p, c)
    /\ p' = P!ResumeTo(p, c)
    /\ seen' = seen \o SubSeq(in, 1, Used(c))
    /\ rest' = IF c.ret = "callback" THEN P!Suffix(in, c.n) ELSE <<>>
    /\ got' = got \o c.d
    /\ last' = IF c.ret = "eos" /\ in = <<>> THEN "empty" ELSE c.ret
    /\ UNCHANGED x

Next == Resume
Spec == Init /\ [][Next]_vars

(***************************************************************************)
Whole(bytes) == LET n == New(x)
                    f == P!Feed(n.q, "", bytes)
                IN [toks |-> n.owed \o f.toks, er |-> f.er, q |-> f.q, k |-> f.k]

Eventual == last = "eos" => got = Whole(seen).toks
Order == LET w == Whole(seen) IN
         IF Len(got) <= Len(w.toks) THEN IsPrefix(got, w.toks)
         ELSE last \in {"callback", "empty"} /\ IsPrefix(got, Whole(seen \o rest).toks)
Count == p.count = Len(seen)
Ends == /\ p.end = "finished" => MFinal(Whole(seen).q) /\ got = Whole(seen).toks
        /\ p.end = "dead" => LET w == Whole(seen) IN
              /\ w.er # "" /\ w.k = Len(seen)
              /\ IsPrefix(got, w.toks) /\ P!OneField(P!Suffix(w.toks, Len(got)))
        /\ last = "eos" => Whole(seen).er = "" /\ ~MFinal(Whole(seen).q)
Final == [][p.end # "open" => got' = got /\ p' = p /\ last' = (IF p.end = "dead" THEN "err" ELSE "finished")]_vars
\* a call with what is left and one more byte has some acceptable outcome
Progress == LET more == {rest \o <<b>> : b \in Ctx.sigma} IN
            \A in \in more : Room(in) => \E c \in Candidates(in) : P!ResumeOK(p, c)
=============================================================================

----------------------------- MODULE Http1Push -----------------------------
(***************************************************************************)
(* The HTTP/1.x machine behind the push interface.                         *)
(***************************************************************************)
EXTENDS Http1

H1State(m, ans) == [m |-> m, regs |-> [r \in RegTokens |-> <<>>], parts |-> 0, ans |-> ans]

H1Step(q, b) ==
    LET r == Step(q.m, b)
        begun == \E i \in 1..Len(r.ev) : r.ev[i][1] = "multipart_begin"
    IN [nx |-> [q EXCEPT !.m = r.nx, !.parts = IF begun THEN @ + 1 ELSE @], ev |-> r.ev, er |-> r.er]

\* the answers repeat when there are more parts than answers
AnswerOf(q) == IF q.ans = <<>> \/ q.parts = 0 THEN -1 ELSE q.ans[((q.parts - 1) % Len(q.ans)) + 1]
H1Settle(q) == IF q.m.c = "Ask" THEN [q |-> [q EXCEPT !.m = Answer(q.m, AnswerOf(q))], ev |-> <<>>]
               ELSE IF q.m.c = "UEmpty" THEN [q |-> [q EXCEPT !.m = UrlEmptyEnd.nx], ev |-> UrlEmptyEnd.ev]
               ELSE [q |-> q, ev |-> <<>>]
H1Final(q) == q.m.c = "Done"
\* a boundary is compared as a whole
H1Phase(q) == Phase(q.m)
H1Look(q) == IF q.m.c = "Bnd" THEN Len(Boundaries[q.m.bd]) + 1 ELSE 1
H1Piecewise(q) == q.m.c = "Bnd"
H1Args(e) == IF e \in DOMAIN EventArgs THEN EventArgs[e] ELSE <<>>
=============================================================================

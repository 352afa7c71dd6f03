----------------------------- MODULE Http2Push -----------------------------
(***************************************************************************)
(* The HTTP/2 machine behind the push interface.  Lengths are below BIG.   *)
(***************************************************************************)
EXTENDS Http2

H2State == [m |-> Start, regs |-> [r \in RegTokens |-> <<>>], parts |-> 0, ans |-> <<>>]
H2Step(q, b) == LET r == Step(q.m, b, "gt")
                IN [nx |-> [q EXCEPT !.m = r.nx], ev |-> r.ev, er |-> r.er]
H2Settle(q) == [q |-> q, ev |-> <<>>]
H2Final(q) == FALSE
H2Phase(q) == Phase(q.m)
H2Look(q) == 1
H2Piecewise(q) == FALSE
H2Args(e) == IF e \in DOMAIN EventArgs THEN EventArgs[e] ELSE <<>>
=============================================================================

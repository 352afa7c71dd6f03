------------------------------ MODULE UrlAgree ------------------------------
(***************************************************************************)
(* The three decoders of URL-encoded data - the url-encoded body of        *)
(* Http1, QueryIterator and decode() of Util - fed with the same bytes.    *)
(* Explores every state of the product under every byte and checks that    *)
(* they mean the same (C18):                                               *)
(*                                                                         *)
(*   - body and query report the same name and value bytes, for the same   *)
(*     pair, and reject the same byte in the same part of a pair, unless   *)
(*     the first byte of all is a separator;                               *)
(*   - as long as there was no separator, decode() returns the name, and   *)
(*     rejects the same byte;                                              *)
(*   - when the input ends, they have seen the same pairs, unless it ends  *)
(*     inside a hex sequence: an error for all but the body.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences

U == INSTANCE Http1 WITH MaxLen <- 2, Boundaries <- <<>>
V == INSTANCE Util

VARIABLES u, q, d,   \* the three machines
          open,      \* pairs the body has begun minus pairs the query has ended
          plain,     \* no separator so far
          skip       \* the first byte was a separator
vars == <<u, q, d, open, plain, skip>>

Special(b) == b \in {U!EQ, U!AMP, U!SEMI}

Init == /\ u = [U!InitUrl(2) EXCEPT !.len = U!BIG]
        /\ q = V!InitQuery /\ d = V!InitDecode
        /\ open = 0 /\ plain = TRUE /\ skip = FALSE

\* what a step says, in the words of the query
Data(r) == SelectSeq(r.ev, LAMBDA t : t[1] \in {"name", "value"})
Rename(t) == IF t[1] = "uname" THEN <<"name", t[2]>> ELSE <<"value", t[2]>>
UData(r) == LET ev == SelectSeq(r.ev, LAMBDA t : t[1] \in {"uname", "uvalue"})
            IN [i \in 1..Len(ev) |-> Rename(ev[i])]
DData(r) == [i \in 1..Len(r.ev) |-> <<"name", r.ev[i][2]>>]
Begins(r) == Len(SelectSeq(r.ev, LAMBDA t : t[1] = "url_begin"))
Items(r)  == Len(SelectSeq(r.ev, LAMBDA t : t[1] \in {"item", "item_v"}))
Kind(er) == CASE er = "UrlEncodedName" -> "Name" [] er = "UrlEncodedValue" -> "Value" [] OTHER -> er

Live == u.c # "Dead"
Feed(b) ==
    LET x == U!Step(u, b)
        y == IF q.c = "Dead" THEN V!To(q, <<>>) ELSE V!Step(q, b)
        z == IF d.c = "Dead" THEN V!To(d, <<>>) ELSE V!Step(d, b)
    IN /\ u' = x.nx /\ q' = y.nx
       /\ plain' = (plain /\ ~Special(b))
       \* decode() knows no separators: after one it is of no interest
       /\ d' = IF plain' THEN z.nx ELSE V!Dead(d.m)
       /\ skip' = (skip \/ (q.c = "First" /\ Special(b)))
       /\ open' = IF skip' THEN 0 ELSE open + Begins(x) - Items(y)
Next == Live /\ \E b \in U!Byte : Feed(b)
Spec == Init /\ [][Next]_vars

\* where the body and the query are
Place == [UFirst |-> {"First", "Next"}, UName |-> {"Name"}, UNameH1 |-> {"NameH1"}, UNameH2 |-> {"NameH2"},
          UValue |-> {"Value"}, UValueH1 |-> {"ValueH1"}, UValueH2 |-> {"ValueH2"}, Dead |-> {"Dead"}]
DPlace == [UFirst |-> "Plain", UName |-> "Plain", UNameH1 |-> "Hex1", UNameH2 |-> "Hex2", Dead |-> "Dead"]

SamePlace == /\ ~skip => q.c \in Place[u.c] /\ q.k = u.k
             /\ plain => d.c = DPlace[u.c] /\ d.k = u.k
             /\ ~skip => open = (IF u.c \in {"UFirst"} THEN 0 ELSE 1) \/ u.c = "Dead"

SameMeaning == (Live /\ ~skip) => \A b \in U!Byte :
    LET x == U!Step(u, b)
        y == V!Step(q, b)
        z == V!Step(d, b)
    IN /\ ~(q.c = "First" /\ Special(b)) => Kind(x.er) = y.er /\ UData(x) = Data(y)
       /\ (plain /\ ~Special(b)) => (x.er # "") = (z.er # "") /\ UData(x) = DData(z)
       \* a pair is begun before its bytes are reported, and ended by the query after them
       /\ Data(y) # <<>> => open + Begins(x) = 1
       /\ Items(y) = 1 /\ ~(q.c = "First" /\ Special(b)) => open + Begins(x) = 1

\* the input ends here: the body's length is reached
SameEnd == (Live /\ ~skip) =>
    LET y == V!End(q)
        inside == u.c \in {"UNameH1", "UNameH2", "UValueH1", "UValueH2"}
    IN /\ (y.er # "") = inside
       /\ ~inside => Items(y) = open                 \* every begun pair is an item
       /\ (plain /\ ~inside) => V!End(d).er = ""
       /\ (plain /\ inside) => V!End(d).er = "HexSequence"
       \* a value is reported as such only after an equal sign
       /\ (y.ev # <<>> /\ y.ev[1][1] = "item_v") => u.c = "UValue"

\* with any length left the body is what it is without one, until that many bytes are used
Lengths == (Live /\ u.c # "Dead") => \A n \in 1..2 : \A b \in U!Byte :
    LET x == U!Step(u, b)
        w == U!Step([u EXCEPT !.len = n], b)
    IN /\ w.er = x.er
       /\ x.er = "" => IF n = 1 THEN w.nx = U!Done /\ w.ev = x.ev \o <<U!E("body_finished")>>
                       ELSE w.ev = x.ev /\ w.nx = [x.nx EXCEPT !.len = n - 1]
=============================================================================

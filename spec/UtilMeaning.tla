----------------------------- MODULE UtilMeaning -----------------------------
(***************************************************************************)
(* What whole inputs of decode(), QueryIterator and FieldIterator mean,    *)
(* and that the byte machines of Util say the same.                        *)
(*                                                                         *)
(* The meanings are written without any machine: a query is cut at its     *)
(* separators, every piece at its first equals sign, and both halves are   *)
(* decoded; a field is read as name, value and what may follow the value.  *)
(* Every sequence of bytes over an alphabet that contains the bytes which  *)
(* matter, up to a length, is fed to the machine.  Every such sequence is  *)
(* also taken as a whole input that ends there.                            *)
(***************************************************************************)
EXTENDS Util, SequencesExt, FiniteSets, FiniteSetsExt

CONSTANT Less     \* bytes fewer than the bound of a context

VARIABLES x, s, acc
vars == <<x, s, acc>>

Mean(toks, er) == [toks |-> toks, er |-> er]
Then(toks, m) == Mean(toks \o m.toks, m.er)
\* one meaning and then another, unless the first is an error
Both(m, n) == IF m.er # "" THEN m ELSE Then(m.toks, n)
Nothing == Mean(<<>>, "")
Err(kind) == Mean(<<>>, kind)
D(name, bytes) == [i \in 1..Len(bytes) |-> <<name, bytes[i]>>]
From(t, i) == SubSeq(t, i, Len(t))
Upto(t, i) == SubSeq(t, 1, i)
First(t, Is(_)) == Min({i \in 1..Len(t) : Is(t[i])} \cup {Len(t) + 1})
NoBlanks(t) == From(t, First(t, LAMBDA b : ~IsBlank(b)))

(***************************************************************************)
(* Decoding: hexer and byter are the errors of a bad hex sequence and of a *)
(* bad byte.                                                               *)
(***************************************************************************)
RECURSIVE Decoded(_, _, _, _)
Decoded(t, name, hexer, byter) ==
    LET k == First(t, LAMBDA b : ~IsVisible(b) \/ b \in {PERCENT, PLUS}) IN
    Then(D(name, Upto(t, k - 1)),
         IF k > Len(t) THEN Nothing
         ELSE IF t[k] = PLUS THEN Then(D(name, <<SP>>), Decoded(From(t, k + 1), name, hexer, byter))
         ELSE IF t[k] # PERCENT THEN Err(byter)
         ELSE IF Len(t) < k + 2 \/ ~IsHex(t[k + 1]) \/ ~IsHex(t[k + 2]) THEN Err(hexer)
         ELSE Then(D(name, <<HexVal(t[k + 1]) * 16 + HexVal(t[k + 2])>>),
                   Decoded(From(t, k + 3), name, hexer, byter)))

(***************************************************************************)
(* Queries.                                                                *)
(***************************************************************************)
IsSeparator(b) == b \in {AMP, SEMI}
Pair(p) == LET k == First(p, LAMBDA b : b = EQ)
               name == Decoded(Upto(p, k - 1), "name", "Name", "Name")
           IN IF k > Len(p) THEN Both(name, Mean(<<E("item")>>, ""))
              ELSE Both(name, Both(Decoded(From(p, k + 1), "value", "Value", "Value"),
                                   Mean(<<E("item_v")>>, "")))
RECURSIVE Pairs(_)
Pairs(t) == LET k == First(t, IsSeparator) IN
            IF t = <<>> THEN Nothing
            ELSE Both(Pair(Upto(t, k - 1)), Pairs(From(t, k + 1)))
\* the first name of a query is not empty; later ones may be
Query(t) == IF t # <<>> /\ (t[1] = EQ \/ IsSeparator(t[1])) THEN Err("Name") ELSE Pairs(t)

(***************************************************************************)
(* Fields with delimiter d; n says whether names are normalized.           *)
(***************************************************************************)
\* the text of a quoted string and the number of bytes up to its closing quote, 0 if there is none
RECURSIVE Text(_)
Text(t) ==
    LET k == First(t, LAMBDA b : ~IsQuoted(b))
        head == D("value", Upto(t, k - 1))
        rest == Text(From(t, k + 2))
    IN IF k > Len(t) THEN [toks |-> head, n |-> 0]
       ELSE IF t[k] = QUOTE THEN [toks |-> head, n |-> k]
       ELSE IF t[k] = BSLASH /\ k < Len(t)
            THEN [toks |-> head \o D("value", <<t[k + 1]>>) \o rest.toks,
                  n |-> IF rest.n = 0 THEN 0 ELSE k + 1 + rest.n]
       ELSE [toks |-> head, n |-> 0]
RECURSIVE Field(_, _, _)
FieldName(t, d, n) ==
    LET k == First(t, LAMBDA b : b # SLASH /\ (b \in {EQ, d} \/ ~IsToken(b)))
        v == NoBlanks(From(t, k + 1))                         \* behind an equals sign
        e == First(v, LAMBDA b : b = d \/ ~IsField(b))         \* where a plain value ends
        q == Text(From(v, 2))
        a == NoBlanks(From(v, q.n + 2))                        \* behind a quoted value
    IN Then(D("name", [i \in 1..(k - 1) |-> IF n THEN Lower(t[i]) ELSE t[i]]),
        IF k > Len(t) THEN Mean(<<E("item")>>, "")
        ELSE IF t[k] = EQ
        THEN IF v = <<>> THEN Mean(<<E("item")>>, "")
             ELSE IF v[1] = QUOTE
             THEN Then(q.toks, IF q.n = 0 THEN Err("Value")
                               ELSE IF a = <<>> THEN Mean(<<E("item_v")>>, "")
                               ELSE IF a[1] = d THEN Then(<<E("item_v")>>, Field(From(a, 2), d, n))
                               ELSE Err("Value"))
             ELSE Then(D("value", Upto(v, e - 1)),
                       IF e > Len(v) THEN Mean(<<E("item_v")>>, "")
                       ELSE IF v[e] = d THEN Then(<<E("item_v")>>, Field(From(v, e + 1), d, n))
                       ELSE Err("Value"))
        ELSE IF t[k] = d THEN Then(<<E("item")>>, Field(From(t, k + 1), d, n))
        ELSE Err("Name"))
Field(t, d, n) == LET u == NoBlanks(t) IN IF u = <<>> THEN Nothing ELSE FieldName(u, d, n)

(***************************************************************************)
(* Contexts.                                                               *)
(***************************************************************************)
At(q, sigma, n) == [q |-> q, sigma |-> sigma, n |-> n]
Contexts ==
  << At(InitDecode, {65, 97, 52, PERCENT, PLUS, 127, 200}, 7),
     At(InitDecode, 0..255, 3),
     At(InitQuery, {65, 52, EQ, AMP, SEMI, PERCENT, PLUS}, 7),
     At(InitQuery, 0..255, 3),
     At(InitField(SEMI, TRUE), {65, EQ, SEMI, SP, QUOTE, BSLASH, 1}, 8),
     At(InitField(44, FALSE), {65, EQ, 44, SEMI, QUOTE, SP, SLASH}, 7),
     At(InitField(SEMI, TRUE), 0..255, 3),
     At(InitField(SLASH, FALSE), {65, EQ, SLASH, QUOTE, TAB}, 7),
     At(InitField(SP, TRUE), {65, EQ, SP, QUOTE, TAB}, 7),
     At(InitField(EQ, TRUE), {65, EQ, SP, QUOTE, BSLASH}, 7),
     At(InitField(QUOTE, TRUE), {65, EQ, SP, QUOTE, BSLASH}, 7),
     At(InitField(97, TRUE), {65, 97, EQ, SP, QUOTE}, 7) >>

Meaning(c, t) == CASE c.q.m[1] = "decode" -> Decoded(t, "out", "HexSequence", "Byte")
                   [] c.q.m[1] = "query"  -> Query(t)
                   [] c.q.m[1] = "field"  -> Field(t, c.q.m[2], c.q.m[3])

(***************************************************************************)
Feed(a, b) == LET r == Step(a.q, b) IN
              [q |-> r.nx, toks |-> a.toks \o r.ev, er |-> r.er]
Init == /\ x \in 1..Len(Contexts) /\ s = <<>>
        /\ acc = [q |-> Contexts[x].q, toks |-> <<>>, er |-> ""]
Next == /\ Len(s) < Contexts[x].n - Less /\ acc.er = ""
        /\ \E b \in Contexts[x].sigma : s' = Append(s, b) /\ acc' = Feed(acc, b)
        /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

\* the input that ends here
Same == LET e == End(acc.q) IN
        Meaning(Contexts[x], s) = IF acc.er # "" THEN Mean(acc.toks, acc.er)
                                  ELSE Mean(acc.toks \o e.ev, e.er)
View == <<x, s>>
=============================================================================

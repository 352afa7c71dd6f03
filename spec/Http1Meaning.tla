---------------------------- MODULE Http1Meaning ----------------------------
(***************************************************************************)
(* What whole messages mean, and that the byte machine of Http1 says the   *)
(* same.                                                                   *)
(*                                                                         *)
(* The meanings are written without any machine: a part of a multipart     *)
(* body is what precedes the first delimiter, a header field is a line cut *)
(* at its first colon, a chunk is the bytes its length counts, a pair of a *)
(* url-encoded body is cut at its first equals sign and then decoded.      *)
(* Every sequence of bytes over an alphabet that contains the bytes which  *)
(* matter, up to a length, is fed to the machine; after every byte it must *)
(* have reported what the bytes so far mean, and must have failed or       *)
(* finished exactly if they say so.                                        *)
(***************************************************************************)
EXTENDS Http1Push, SequencesExt, FiniteSets, FiniteSetsExt

CONSTANT Less     \* bytes fewer than the bound of a context

MeaningBoundaries == << <<98>>, <<45, 98>>, <<98, 45>> >>

P == INSTANCE Push WITH MStep <- H1Step, MSettle <- H1Settle, MFinal <- H1Final, MLook <- H1Look,
                        MPhase <- H1Phase, MPiecewise <- H1Piecewise, MData <- DataTokens,
                        MRegs <- RegTokens, MArgs <- H1Args

VARIABLES x, s, acc
vars == <<x, s, acc>>

(***************************************************************************)
(* Words for meanings.  v is "open" (more may follow), "done", or the kind *)
(* of the error.                                                           *)
(***************************************************************************)
Mean(toks, v) == [toks |-> toks, v |-> v]
Then(toks, m) == Mean(toks \o m.toks, m.v)
D(name, bytes) == [i \in 1..Len(bytes) |-> <<name, <<bytes[i]>>>>]
Ev(name) == << <<name, <<>>>> >>
EvN(name, n) == << <<name, n>> >>
From(t, i) == SubSeq(t, i, Len(t))
Upto(t, i) == SubSeq(t, 1, i)
\* the first position whose byte has a property; behind the end if there is none
First(t, Is(_)) == Min({i \in 1..Len(t) : Is(t[i])} \cup {Len(t) + 1})
\* t has to go on with the bytes w; rest says what comes after them
Expect(t, w, er, Rest(_)) ==
    LET n == Min({Len(t), Len(w)}) IN
    IF Upto(t, n) # Upto(w, n) THEN Mean(<<>>, er)
    ELSE IF n < Len(w) THEN Mean(<<>>, "open") ELSE Rest(From(t, n + 1))

(***************************************************************************)
(* Header fields.  A line that starts with a blank continues the value.    *)
(* end says what the fields belong to.                                     *)
(***************************************************************************)
\* a value up to the end of its line: quoted strings may contain anything but control bytes
RECURSIVE Value(_, _), Quoted(_, _), Headers(_, _), After(_, _)
Value(t, end) ==
    LET k == First(t, LAMBDA b : ~IsField(b)) IN
    Then(D("hvalue", Upto(t, k - 1)),
         IF k > Len(t) THEN Mean(<<>>, "open")
         ELSE IF t[k] = QUOTE THEN Then(D("hvalue", <<QUOTE>>), Quoted(From(t, k + 1), end))
         ELSE IF t[k] = CR THEN Expect(From(t, k + 1), <<LF>>, "CrlfSequence", LAMBDA r : Headers(r, end))
         ELSE Mean(<<>>, "HeaderValue"))
Quoted(t, end) ==
    LET k == First(t, LAMBDA b : ~IsQuoted(b)) IN
    Then(D("hvalue", Upto(t, k - 1)),
         IF k > Len(t) THEN Mean(<<>>, "open")
         ELSE IF t[k] = QUOTE THEN Then(D("hvalue", <<QUOTE>>), Value(From(t, k + 1), end))
         ELSE IF t[k] # BSLASH THEN Mean(<<>>, "HeaderValue")
         ELSE IF k = Len(t) THEN Mean(D("hvalue", <<BSLASH>>), "open")
         ELSE IF ~IsEscaped(t[k + 1]) THEN Mean(D("hvalue", <<BSLASH>>), "HeaderValue")
         ELSE Then(D("hvalue", SubSeq(t, k, k + 1)), Quoted(From(t, k + 2), end)))
Headers(t, end) ==
    IF t = <<>> THEN Mean(<<>>, "open")
    ELSE IF t[1] = CR THEN Expect(From(t, 2), <<LF>>, "CrlfSequence",
                                  LAMBDA r : Then(Ev("headers_finished"), After(r, end)))
    ELSE IF IsBlank(t[1]) THEN Value(From(t, 2), end)
    ELSE LET k == First(t, LAMBDA b : ~IsToken(b))
             w == First(From(t, k + 1), LAMBDA b : ~IsBlank(b)) + k
             name == [i \in 1..(k - 1) |-> Lower(t[i])]
         IN Then(D("hname", name),
                 IF k > Len(t) THEN Mean(<<>>, "open")
                 ELSE IF t[k] # COLON THEN Mean(<<>>, "HeaderName")
                 ELSE IF w > Len(t) THEN Mean(<<>>, "open")
                 ELSE IF ~IsVisible(t[w]) THEN Mean(<<>>, "HeaderValue")
                 ELSE Value(From(t, w), end))

InHead == [of |-> "head"]
InTrailer == [of |-> "trailer"]
InPart(b, lens) == [of |-> "part", b |-> b, lens |-> lens]

(***************************************************************************)
(* Start lines.                                                            *)
(***************************************************************************)
Digits(t, k) == [i \in 1..k |-> t[i] - 48]
\* a number of one to three digits with a byte behind it
Number(t, stop, Rest(_, _)) ==
    LET k == Min({First(t, LAMBDA b : ~IsDigit(b)), 4}) IN     \* a fourth digit is one too many
    IF k > Len(t) THEN Mean(<<>>, "open")
    ELSE IF k = 1 \/ t[k] # stop THEN Mean(<<>>, "Version")
    ELSE Rest(P!StripZeros(Digits(t, k - 1)), From(t, k + 1))
Version(t, stop, Rest(_)) ==
    Number(t, DOT, LAMBDA maj, r : Number(r, stop, LAMBDA min, u :
        Then(EvN("version", maj \o <<-1>> \o min), Rest(u))))
LineEnd(t) == Then(Ev("initial_finished"),
                   Expect(t, <<LF>>, "CrlfSequence", LAMBDA r : Headers(r, InHead)))
Url(t) == LET k == First(t, LAMBDA b : ~IsVisible(b)) IN
          Then(D("url", Upto(t, k - 1)),
               IF k > Len(t) THEN Mean(<<>>, "open")
               ELSE IF k = 1 \/ t[k] # SP THEN Mean(<<>>, "Url")
               ELSE Expect(From(t, k + 1), B_HTTP, "Version", LAMBDA r : Version(r, CR, LineEnd)))
Status(t) == LET k == First(t, LAMBDA b : ~IsText(b)) IN
             Then(D("status", Upto(t, k - 1)),
                  IF k > Len(t) THEN Mean(<<>>, "open")
                  ELSE IF k = 1 \/ t[k] # CR THEN Mean(<<>>, "Status")
                  ELSE LineEnd(From(t, k + 1)))
Code(t) == LET k == First(t, LAMBDA b : ~IsDigit(b)) IN
           IF k > 4 \/ (k < 4 /\ k <= Len(t)) THEN Mean(<<>>, "StatusCode")
           ELSE IF k > Len(t) THEN Mean(<<>>, "open")
           ELSE IF t[4] # SP THEN Mean(<<>>, "StatusCode")
           ELSE Then(EvN("status_code", P!StripZeros(Digits(t, 3))), Status(From(t, 5)))
\* a response starts with HTTP/, everything else is a request
Message(t) ==
    LET k == First(t, LAMBDA b : ~IsUpper(b))
        request == Then(D("method", Upto(t, k - 1)),
                        IF k > Len(t) THEN Mean(<<>>, "open")
                        ELSE IF k = 1 \/ t[k] # SP THEN Mean(<<>>, "Method")
                        ELSE Url(From(t, k + 1)))
    IN IF IsPrefix(B_HTTP, t) THEN Version(From(t, 6), SP, Code)
       ELSE IF IsPrefix(t, B_HTTP) THEN Mean(<<>>, "open")      \* could be either
       ELSE request
Blank(t) == Message(From(t, First(t, LAMBDA b : ~IsSpaceOrEol(b))))

(***************************************************************************)
(* Chunked bodies.                                                         *)
(***************************************************************************)
\* numbers beyond every input here are one number
HexNum(d) == FoldLeft(LAMBDA n, b : Min({n * 16 + HexVal(b), 1000}), 0, d)
RECURSIVE Chunk(_), Extensions(_, _), ExtValue(_, _)
\* the bytes that a length counts, and the rest of the body; a length of 0 ends it
ChunkData(t, n) ==
    LET k == Min({n, Len(t)}) IN
    IF n = 0 THEN Headers(t, InTrailer)
    ELSE Then(D("chunk", Upto(t, k)),
              IF k < n THEN Mean(<<>>, "open")
              ELSE Expect(From(t, k + 1), <<CR, LF>>, "CrlfSequence", Chunk))
ExtsEnd(t, n) == Then(Ev("exts_finished"), Expect(t, <<LF>>, "CrlfSequence", LAMBDA r : ChunkData(r, n)))
Chunk(t) ==
    IF t = <<>> THEN Mean(<<>>, "open")
    ELSE IF ~IsHex(t[1]) THEN Mean(<<>>, "ChunkLength")
    ELSE LET run == First(t, LAMBDA b : ~IsHex(b))
             k == IF t[1] = 48 THEN 2 ELSE Min({run, 9})         \* up to eight digits
             d == Upto(t, k - 1)
             n == HexNum(d)
             len == EvN("chunk_length", P!StripZeros([i \in 1..(k - 1) |-> HexVal(d[i])]))
         IN Then(Ev("chunk_begin"),
                 IF k > Len(t) THEN Mean(<<>>, "open")
                 ELSE IF t[k] = SEMI THEN Then(len, Extensions(From(t, k + 1), n))
                 ELSE IF t[k] # CR THEN Mean(<<>>, "ChunkLength")
                 ELSE IF n = 0 THEN Then(len, Expect(From(t, k + 1), <<LF>>, "CrlfSequence", LAMBDA r : ChunkData(r, 0)))
                 ELSE Then(len, ExtsEnd(From(t, k + 1), n)))
\* an extension: a name, maybe with a value, up to a semicolon or the end of the line
ExtEnds(b, t, n) == Then(Ev("ext_finished"), IF b = CR THEN ExtsEnd(t, n) ELSE Extensions(t, n))
Extensions(t0, n) ==
    LET t == From(t0, First(t0, LAMBDA b : ~IsBlank(b)))
        k == First(t, LAMBDA b : ~IsToken(b))
        w == First(From(t, k + 1), LAMBDA b : ~IsBlank(b)) + k
    IN IF t = <<>> THEN Mean(<<>>, "open")
       ELSE IF ~IsVisible(t[1]) THEN Mean(<<>>, "ChunkExtensionName")
       ELSE Then(D("xname", [i \in 1..(k - 1) |-> Lower(t[i])]),
                 IF k > Len(t) THEN Mean(<<>>, "open")
                 ELSE IF t[k] \in {CR, SEMI} THEN ExtEnds(t[k], From(t, k + 1), n)
                 ELSE IF t[k] # EQ THEN Mean(<<>>, "ChunkExtensionName")
                 ELSE IF w > Len(t) THEN Mean(<<>>, "open")
                 ELSE IF ~IsVisible(t[w]) THEN Mean(<<>>, "ChunkExtensionValue")
                 ELSE ExtValue(From(t, w), n))
\* outside of quotes a value ends at a semicolon; quotes and backslashes are not part of it
RECURSIVE ExtQuote(_, _)
ExtValue(t, n) ==
    LET k == First(t, LAMBDA b : ~IsField(b) \/ b = SEMI) IN
    Then(D("xvalue", Upto(t, k - 1)),
         IF k > Len(t) THEN Mean(<<>>, "open")
         ELSE IF t[k] = QUOTE THEN ExtQuote(From(t, k + 1), n)
         ELSE IF t[k] \in {CR, SEMI} THEN ExtEnds(t[k], From(t, k + 1), n)
         ELSE Mean(<<>>, "ChunkExtensionValue"))
ExtQuote(t, n) ==
    LET k == First(t, LAMBDA b : ~IsQuoted(b)) IN
    Then(D("xvalue", Upto(t, k - 1)),
         IF k > Len(t) THEN Mean(<<>>, "open")
         ELSE IF t[k] = QUOTE THEN ExtValue(From(t, k + 1), n)
         ELSE IF t[k] # BSLASH THEN Mean(<<>>, "ChunkExtensionValue")
         ELSE IF k = Len(t) THEN Mean(<<>>, "open")
         ELSE IF ~IsEscaped(t[k + 1]) THEN Mean(<<>>, "ChunkExtensionValue")
         ELSE Then(D("xvalue", <<t[k + 1]>>), ExtQuote(From(t, k + 2), n)))

(***************************************************************************)
(* Multipart bodies: b is the boundary, lens the lengths of the parts that *)
(* follow (-1 if not known).                                               *)
(***************************************************************************)
Delimiter(b) == <<CR, LF, HYPHEN, HYPHEN>> \o b
RECURSIVE Part(_, _, _)
\* behind a delimiter: the end, or a line break and another part
PartsGoOn(t, b, lens) ==
    IF t = <<>> THEN Mean(<<>>, "open")
    ELSE IF t[1] = HYPHEN
         THEN Expect(From(t, 2), <<HYPHEN>>, "MultipartBoundary", LAMBDA r : Mean(Ev("body_finished"), "done"))
    ELSE IF t[1] = CR
         THEN Then(Ev("multipart_begin"),
                   Expect(From(t, 2), <<LF>>, "CrlfSequence",
                          LAMBDA r : Headers(r, InPart(b, lens))))
    ELSE Mean(<<>>, "MultipartBoundary")
\* the data of a part
Part(t, b, lens) ==
    LET len == IF lens = <<>> THEN -1 ELSE Head(lens)
        next == IF lens = <<>> THEN <<>> ELSE Append(Tail(lens), len)
        del == Delimiter(b)
        at == {i \in 1..Len(t) : IsPrefix(del, From(t, i))}
        \* the end of t that could become a delimiter
        held == Max({k \in 0..Min({Len(t), Len(del) - 1}) : From(t, Len(t) - k + 1) = Upto(del, k)})
        k == Min({len, Len(t)})
    IN IF len >= 0
       THEN Then(D("part", Upto(t, k)),
                 IF k < len THEN Mean(<<>>, "open")
                 ELSE Expect(From(t, k + 1), del, "MultipartBoundary", LAMBDA r : PartsGoOn(r, b, next)))
       ELSE IF at = {} THEN Mean(D("part", Upto(t, Len(t) - held)), "open")
       ELSE Then(D("part", Upto(t, Min(at) - 1)), PartsGoOn(From(t, Min(at) + Len(del)), b, next))

\* what follows header fields
After(t, end) == CASE end.of = "head"    -> Mean(<<>>, "done")
                   [] end.of = "trailer" -> Mean(Ev("body_finished"), "done")
                   [] end.of = "part"    -> Part(t, end.b, end.lens)

(***************************************************************************)
(* Url-encoded bodies of n bytes.                                          *)
(***************************************************************************)
\* decoded bytes, up to the end of a name or a value
RECURSIVE Pairs(_), Decoded(_, _)
Decoded(t, name) ==
    LET hex == First(From(t, 2), LAMBDA b : ~IsHex(b))
        er == IF name = "uname" THEN "UrlEncodedName" ELSE "UrlEncodedValue"
    IN IF t = <<>> THEN Mean(<<>>, "open")
       ELSE IF t[1] \in {AMP, SEMI} THEN Pairs(From(t, 2))
       ELSE IF t[1] = EQ /\ name = "uname" THEN Decoded(From(t, 2), "uvalue")
       ELSE IF t[1] = PLUS THEN Then(D(name, <<SP>>), Decoded(From(t, 2), name))
       ELSE IF t[1] # PERCENT
            THEN IF IsVisible(t[1]) THEN Then(D(name, <<t[1]>>), Decoded(From(t, 2), name)) ELSE Mean(<<>>, er)
       ELSE IF hex >= 3 THEN Then(D(name, <<HexVal(t[2]) * 16 + HexVal(t[3])>>), Decoded(From(t, 4), name))
       ELSE IF hex = Len(t) THEN Mean(<<>>, "open") ELSE Mean(<<>>, er)
Pairs(t) == IF t = <<>> THEN Mean(<<>>, "open") ELSE Then(Ev("url_begin"), Decoded(t, "uname"))
Body(t, n) == LET m == Pairs(t) IN
              IF m.v = "open" /\ Len(t) = n THEN Mean(m.toks \o Ev("body_finished"), "done") ELSE m

(***************************************************************************)
(* Contexts: where the machine starts, which bytes it gets, how many.      *)
(***************************************************************************)
At(m, ans, sigma, n, what) == [q |-> H1State(m, ans), sigma |-> sigma, n |-> n, what |-> what]
InM(c, i, len) == [InitMulti(i) EXCEPT !.c = c, !.len = len]

Contexts ==
  << At(InitHead, <<>>, {72, 84, 80, 47, SP, CR}, 7, "message"),
     At(Fresh, <<>>, {72, 84, 71, SP, 97}, 6, "line"),
     At([InitHead EXCEPT !.c = "QMaj1"], <<>>, {48, 50, DOT, CR, LF}, 9, "version"),
     At([InitHead EXCEPT !.c = "PMin1"], <<>>, {48, 57, SP, DOT}, 9, "minor"),
     At([InitHead EXCEPT !.c = "Code1"], <<>>, {48, 57, SP, CR, 65}, 8, "code"),
     At([InitHead EXCEPT !.c = "Hdr"], <<>>, {65, COLON, SP, CR, LF}, 9, "headers"),
     At([InitHead EXCEPT !.c = "Value"], <<>>, {65, QUOTE, BSLASH, 123, CR, LF}, 7, "value"),
     At([InitHead EXCEPT !.c = "Hdr"], <<>>, 0..255, 2, "headers"),
     At([InitHead EXCEPT !.c = "Strip"], <<>>, 0..255, 2, "strip"),
     At(InitChunked, <<>>, {48, 50, CR, LF, 120}, 11, "chunks"),
     At(InitChunked, <<>>, {50, 65, SEMI, CR}, 10, "chunks"),
     At([InitChunked EXCEPT !.c = "ExtStrip", !.len = 1], <<>>, {65, EQ, SP, SEMI, CR, LF}, 8, "exts"),
     At([InitChunked EXCEPT !.c = "ExtValStrip", !.len = 0], <<>>, {65, QUOTE, BSLASH, SEMI, CR, LF}, 8, "extvalue"),
     At(InM("Scan", 1, 0), <<>>, {CR, LF, HYPHEN, 98}, 10, "part"),
     At(InM("Scan", 2, 0), <<1>>, {CR, LF, HYPHEN, 98}, 10, "part"),
     At(InM("Scan", 3, 0), <<>>, {CR, LF, HYPHEN, 98}, 10, "part"),
     At(InM("BndEnd", 1, 0), <<2>>, {CR, LF, HYPHEN, 98}, 11, "delimiter"),
     At(InM("BndEnd", 1, 0), <<0, -1>>, {CR, LF, HYPHEN, 98}, 11, "delimiter"),
     At(InitUrl(BIG), <<>>, {97, EQ, AMP, PERCENT, 52, PLUS}, 7, "pairs"),
     At(InitUrl(BIG), <<>>, 0..255, 2, "pairs"),
     At(InitUrl(3), <<>>, {97, EQ, SEMI, PERCENT, 52, 0}, 6, "body") >>

Meaning(c, t) ==
    CASE c.what = "message"   -> Blank(t)
      [] c.what = "line"      -> Message(t)
      [] c.what = "version"   -> Version(t, CR, LineEnd)
      [] c.what = "minor"     -> Number(t, SP, LAMBDA min, u : Then(EvN("version", <<-1>> \o min), Code(u)))
      [] c.what = "code"      -> Code(t)
      [] c.what = "headers"   -> Headers(t, InHead)
      [] c.what = "value"     -> Value(t, InHead)
      [] c.what = "strip"     -> LET w == First(t, LAMBDA b : ~IsBlank(b)) IN
                                 IF w > Len(t) THEN Mean(<<>>, "open")
                                 ELSE IF IsVisible(t[w]) THEN Value(From(t, w), InHead) ELSE Mean(<<>>, "HeaderValue")
      [] c.what = "chunks"    -> Chunk(t)
      [] c.what = "exts"      -> Extensions(t, 1)
      [] c.what = "extvalue"  -> LET w == First(t, LAMBDA b : ~IsBlank(b)) IN
                                 IF w > Len(t) THEN Mean(<<>>, "open")
                                 ELSE IF IsVisible(t[w]) THEN ExtValue(From(t, w), 0) ELSE Mean(<<>>, "ChunkExtensionValue")
      [] c.what = "part"      -> Part(t, Boundaries[c.q.m.bd], IF c.q.ans = <<>> THEN <<>> ELSE <<-1>> \o c.q.ans)
      [] c.what = "delimiter" -> PartsGoOn(t, Boundaries[c.q.m.bd], c.q.ans)
      [] c.what = "pairs"     -> Pairs(t)
      [] c.what = "body"      -> Body(t, 3)

(***************************************************************************)
Start(c) == [q |-> c.q, toks |-> <<>>, er |-> "", k |-> 0, last |-> 0, at |-> c.q]
Init == /\ x \in 1..Len(Contexts) /\ s = <<>> /\ acc = Start(Contexts[x])
Next == /\ Len(s) < Contexts[x].n - Less /\ acc.er = "" /\ ~H1Final(acc.q)
        /\ \E b \in Contexts[x].sigma : s' = Append(s, b) /\ acc' = P!FeedByte(acc, b)
        /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

Same == LET m == Meaning(Contexts[x], s) IN
        /\ acc.toks = m.toks
        /\ m.v = (IF acc.er # "" THEN acc.er ELSE IF H1Final(acc.q) THEN "done" ELSE "open")
View == <<x, s>>
=============================================================================

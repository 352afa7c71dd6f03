------------------------------- MODULE Http1 -------------------------------
(***************************************************************************)
(* Reference machine of the HTTP/1.x push parser, one input byte per step. *)
(*                                                                         *)
(* Step(s, b) says what a parser in state s does with byte b: the state    *)
(* after it, the tokens it reports, and whether it is an error.  It is     *)
(* defined byte by byte, so it cannot depend on how the input is cut into  *)
(* slices: the Push module turns it into the slice-wise, interruptible API *)
(* of the library, and the implementation has to agree with that.          *)
(*                                                                         *)
(* Tokens are pairs <<name, value>>.                                       *)
(*   data tokens      one per delivered byte of a callback that hands out  *)
(*                    bytes; consecutive ones may be delivered by one call *)
(*   register tokens  "#..." - a digit or byte that becomes part of a      *)
(*                    number reported by a later event token               *)
(*   event tokens     one callback invocation                              *)
(*                                                                         *)
(* A state is [c, ty, len, bd, k]: control location, body type, remaining  *)
(* length (saturating: BIG means "more than MaxLen"), boundary index (0 if *)
(* none), and a small auxiliary value.                                     *)
(***************************************************************************)
EXTENDS Bytes

CONSTANTS MaxLen,        \* lengths above this are tracked only as BIG
          Boundaries     \* sequence of multipart boundaries (byte sequences)

BIG == MaxLen + 1

Types == {"head", "chunked", "multipart", "url"}

DataTokens == {"method", "url", "status", "hname", "hvalue", "xname", "xvalue",
               "chunk", "part", "uname", "uvalue"}
RegTokens  == {"#maj", "#min", "#code", "#len"}
EventTokens == {"version", "status_code", "initial_finished", "headers_finished",
                "body_finished", "chunk_begin", "chunk_length", "ext_finished",
                "exts_finished", "multipart_begin", "url_begin"}

\* what an event reports: the number made of the digits read since the last event
EventArgs == [version |-> <<"#maj", "#min">>, status_code |-> <<"#code">>,
              chunk_length |-> <<"#len">>]
RegBase(r) == IF r = "#len" THEN 16 ELSE 10

ErrorKinds == {"Method", "Url", "Version", "StatusCode", "Status", "CrlfSequence",
               "HeaderName", "HeaderValue", "ChunkLength", "ChunkExtensionName",
               "ChunkExtensionValue", "MultipartBoundary", "UrlEncodedName",
               "UrlEncodedValue"}

State(c, ty, len, bd, k) == [c |-> c, ty |-> ty, len |-> len, bd |-> bd, k |-> k]

Done == State("Done", "none", 0, 0, 0)
Dead == State("Dead", "none", 0, 0, 0)

\* the control locations, by the part of the message they belong to
StartCtl  == {"Fresh", "Start", "H1", "H2", "H3", "H4", "Method", "Url1", "Url",
              "Http1", "Http2", "Http3", "Http4", "Http5",
              "QMaj1", "QMaj2", "QMaj3", "QDot", "QMin1", "QMin2", "QMin3", "QEnd",
              "PMaj1", "PMaj2", "PMaj3", "PDot", "PMin1", "PMin2", "PMin3", "PEnd",
              "Code1", "Code2", "Code3", "CodeEnd", "Status1", "Status", "InitLf"}
HeaderCtl == {"Hdr", "Name", "Strip", "Value", "Quoted", "Escaped", "HdrLf", "EndLf"}
ChunkCtl  == {"Len1", "Len2", "Len3", "Len4", "Len5", "Len6", "Len7", "Len8", "LenEnd",
              "ExtStrip", "ExtName", "ExtValStrip", "ExtVal", "ExtQuoted", "ExtEscaped",
              "LenLf", "ChunkData", "ChunkCr", "ChunkLf"}
MultiCtl  == {"Hy1", "Hy2", "Bnd", "BndEnd", "Fin", "Ask", "PartData", "PartCr", "PartLf",
              "Scan", "ScanLf"}
UrlCtl    == {"UFirst", "UName", "UNameH1", "UNameH2", "UValue", "UValueH1", "UValueH2"}
EndCtl    == {"Done", "Dead"}

(***************************************************************************)
(* Results of a step.                                                      *)
(***************************************************************************)
To(s, ev)  == [nx |-> s, ev |-> ev, er |-> ""]
Go(s, c)   == To([s EXCEPT !.c = c], <<>>)
Emit(s, c, ev) == To([s EXCEPT !.c = c], ev)
Fail(kind, ev) == [nx |-> Dead, ev |-> ev, er |-> kind]

T(name, v) == <<name, v>>
E(name)    == <<name, 0>>
\* the bytes of a sequence as data tokens
Ts(name, seq) == [i \in 1..Len(seq) |-> <<name, seq[i]>>]

Acc(n, base, d) == IF n = BIG \/ n * base + d > MaxLen THEN BIG ELSE n * base + d
Dec(n) == IF n = BIG THEN BIG ELSE n - 1

(***************************************************************************)
(* Start line of a request or a response.                                  *)
(***************************************************************************)
\* a byte of the method; `held` are method bytes not reported so far, because
\* they could have been the start of "HTTP/"
MethodByte(s, b, held) ==
    IF IsUpper(b) THEN Emit(s, "Method", Ts("method", held) \o <<T("method", b)>>)
    ELSE IF b = SP /\ (held # <<>> \/ s.c = "Method")
         THEN Emit(s, "Url1", Ts("method", held))
         ELSE Fail("Method", Ts("method", held))

DetectByte(s, b) == IF b = 72 THEN Go(s, "H1") ELSE MethodByte(s, b, <<>>)

\* H1..H4: 1..4 bytes of "HTTP/" have been read, request or response is open
HeldByte(s, b, n) ==
    IF b = B_HTTP[n + 1]
    THEN Go(s, IF n = 4 THEN "PMaj1" ELSE <<"H1", "H2", "H3", "H4">>[n + 1])
    ELSE MethodByte(s, b, SubSeq(B_HTTP, 1, n))

\* a version number of 1 to 3 digits, a dot, 1 to 3 digits, and a final byte
VersionByte(s, b, p, final, done) ==
    LET c == s.c IN
    CASE c = p \o "Maj1" -> IF IsDigit(b) THEN Emit(s, p \o "Maj2", <<T("#maj", b - 48)>>)
                            ELSE Fail("Version", <<>>)
      [] c = p \o "Maj2" -> IF IsDigit(b) THEN Emit(s, p \o "Maj3", <<T("#maj", b - 48)>>)
                            ELSE IF b = DOT THEN Go(s, p \o "Min1") ELSE Fail("Version", <<>>)
      [] c = p \o "Maj3" -> IF IsDigit(b) THEN Emit(s, p \o "Dot", <<T("#maj", b - 48)>>)
                            ELSE IF b = DOT THEN Go(s, p \o "Min1") ELSE Fail("Version", <<>>)
      [] c = p \o "Dot"  -> IF b = DOT THEN Go(s, p \o "Min1") ELSE Fail("Version", <<>>)
      [] c = p \o "Min1" -> IF IsDigit(b) THEN Emit(s, p \o "Min2", <<T("#min", b - 48)>>)
                            ELSE Fail("Version", <<>>)
      [] c = p \o "Min2" -> IF IsDigit(b) THEN Emit(s, p \o "Min3", <<T("#min", b - 48)>>)
                            ELSE IF b = final THEN done ELSE Fail("Version", <<>>)
      [] c = p \o "Min3" -> IF IsDigit(b) THEN Emit(s, p \o "End", <<T("#min", b - 48)>>)
                            ELSE IF b = final THEN done ELSE Fail("Version", <<>>)
      [] c = p \o "End"  -> IF b = final THEN done ELSE Fail("Version", <<>>)

CodeByte(s, b, next) == IF IsDigit(b) THEN Emit(s, next, <<T("#code", b - 48)>>)
                        ELSE Fail("StatusCode", <<>>)

StartStep(s, b) ==
    LET c == s.c IN
    CASE c = "Start"  -> IF IsSpaceOrEol(b) THEN Go(s, "Start") ELSE DetectByte(s, b)
      [] c = "Fresh"  -> DetectByte(s, b)
      [] c = "H1"     -> HeldByte(s, b, 1)
      [] c = "H2"     -> HeldByte(s, b, 2)
      [] c = "H3"     -> HeldByte(s, b, 3)
      [] c = "H4"     -> HeldByte(s, b, 4)
      [] c = "Method" -> MethodByte(s, b, <<>>)
      [] c = "Url1"   -> IF IsVisible(b) THEN Emit(s, "Url", <<T("url", b)>>) ELSE Fail("Url", <<>>)
      [] c = "Url"    -> IF IsVisible(b) THEN Emit(s, "Url", <<T("url", b)>>)
                         ELSE IF b = SP THEN Go(s, "Http1") ELSE Fail("Url", <<>>)
      [] c = "Http1"  -> IF b = B_HTTP[1] THEN Go(s, "Http2") ELSE Fail("Version", <<>>)
      [] c = "Http2"  -> IF b = B_HTTP[2] THEN Go(s, "Http3") ELSE Fail("Version", <<>>)
      [] c = "Http3"  -> IF b = B_HTTP[3] THEN Go(s, "Http4") ELSE Fail("Version", <<>>)
      [] c = "Http4"  -> IF b = B_HTTP[4] THEN Go(s, "Http5") ELSE Fail("Version", <<>>)
      [] c = "Http5"  -> IF b = B_HTTP[5] THEN Go(s, "QMaj1") ELSE Fail("Version", <<>>)
      [] c \in {"QMaj1", "QMaj2", "QMaj3", "QDot", "QMin1", "QMin2", "QMin3", "QEnd"} ->
            VersionByte(s, b, "Q", CR, Emit(s, "InitLf", <<E("version"), E("initial_finished")>>))
      [] c \in {"PMaj1", "PMaj2", "PMaj3", "PDot", "PMin1", "PMin2", "PMin3", "PEnd"} ->
            VersionByte(s, b, "P", SP, Emit(s, "Code1", <<E("version")>>))
      [] c = "Code1"  -> CodeByte(s, b, "Code2")
      [] c = "Code2"  -> CodeByte(s, b, "Code3")
      [] c = "Code3"  -> CodeByte(s, b, "CodeEnd")
      [] c = "CodeEnd" -> IF b = SP THEN Emit(s, "Status1", <<E("status_code")>>)
                          ELSE Fail("StatusCode", <<>>)
      [] c = "Status1" -> IF IsText(b) THEN Emit(s, "Status", <<T("status", b)>>)
                          ELSE Fail("Status", <<>>)
      [] c = "Status"  -> IF IsText(b) THEN Emit(s, "Status", <<T("status", b)>>)
                          ELSE IF b = CR THEN Emit(s, "InitLf", <<E("initial_finished")>>)
                          ELSE Fail("Status", <<>>)
      [] c = "InitLf"  -> IF b = LF THEN Go(s, "Hdr") ELSE Fail("CrlfSequence", <<>>)

(***************************************************************************)
(* Header fields: of a message head, a chunked trailer, a multipart part.  *)
(***************************************************************************)
NameByte(s, b) == IF IsToken(b) THEN Emit(s, "Name", <<T("hname", Lower(b))>>)
                  ELSE IF b = COLON THEN Go(s, "Strip")
                  ELSE Fail("HeaderName", <<>>)

ValueByte(s, b) == IF IsField(b) THEN Emit(s, "Value", <<T("hvalue", b)>>)
                   ELSE IF b = QUOTE THEN Emit(s, "Quoted", <<T("hvalue", b)>>)
                   ELSE IF b = CR THEN Go(s, "HdrLf")
                   ELSE Fail("HeaderValue", <<>>)

HeadersEnd(s) ==
    CASE s.ty = "head"      -> To(Done, <<E("headers_finished")>>)
      [] s.ty = "chunked"   -> To(Done, <<E("headers_finished"), E("body_finished")>>)
      [] s.ty = "multipart" -> Emit(s, "Ask", <<E("headers_finished")>>)

HeaderStep(s, b) ==
    LET c == s.c IN
    CASE c = "Hdr"     -> IF b = CR THEN Go(s, "EndLf")
                          ELSE IF IsBlank(b) THEN Go(s, "Value")   \* folded line
                          ELSE NameByte(s, b)
      [] c = "Name"    -> NameByte(s, b)
      [] c = "Strip"   -> IF IsBlank(b) THEN Go(s, "Strip")
                          ELSE IF IsVisible(b) THEN ValueByte(s, b)
                          ELSE Fail("HeaderValue", <<>>)
      [] c = "Value"   -> ValueByte(s, b)
      [] c = "Quoted"  -> IF IsQuoted(b) THEN Emit(s, "Quoted", <<T("hvalue", b)>>)
                          ELSE IF b = QUOTE THEN Emit(s, "Value", <<T("hvalue", b)>>)
                          ELSE IF b = BSLASH THEN Emit(s, "Escaped", <<T("hvalue", b)>>)
                          ELSE Fail("HeaderValue", <<>>)
      [] c = "Escaped" -> IF IsEscaped(b) THEN Emit(s, "Quoted", <<T("hvalue", b)>>)
                          ELSE Fail("HeaderValue", <<>>)
      [] c = "HdrLf"   -> IF b = LF THEN Go(s, "Hdr") ELSE Fail("CrlfSequence", <<>>)
      [] c = "EndLf"   -> IF b = LF THEN HeadersEnd(s) ELSE Fail("CrlfSequence", <<>>)

(***************************************************************************)
(* Chunked bodies.                                                         *)
(***************************************************************************)
NextLen(c) == CASE c = "Len2" -> "Len3" [] c = "Len3" -> "Len4" [] c = "Len4" -> "Len5"
                [] c = "Len5" -> "Len6" [] c = "Len6" -> "Len7" [] c = "Len7" -> "Len8"
                [] c = "Len8" -> "LenEnd"

LenDone(s, b) ==
    IF b = CR THEN IF s.len = 0 THEN Emit(s, "HdrLf", <<E("chunk_length")>>)
                   ELSE Emit(s, "LenLf", <<E("chunk_length"), E("exts_finished")>>)
    ELSE IF b = SEMI THEN Emit(s, "ExtStrip", <<E("chunk_length")>>)
    ELSE Fail("ChunkLength", <<>>)

ExtEnd(s, b) == IF b = CR THEN Emit(s, "LenLf", <<E("ext_finished"), E("exts_finished")>>)
                ELSE Emit(s, "ExtStrip", <<E("ext_finished")>>)

ExtNameByte(s, b) == IF IsToken(b) THEN Emit(s, "ExtName", <<T("xname", Lower(b))>>)
                     ELSE IF b = EQ THEN Go(s, "ExtValStrip")
                     ELSE IF b = CR \/ b = SEMI THEN ExtEnd(s, b)
                     ELSE Fail("ChunkExtensionName", <<>>)

ExtValByte(s, b) == IF b = CR \/ b = SEMI THEN ExtEnd(s, b)
                    ELSE IF b = QUOTE THEN Go(s, "ExtQuoted")
                    ELSE IF IsField(b) THEN Emit(s, "ExtVal", <<T("xvalue", b)>>)
                    ELSE Fail("ChunkExtensionValue", <<>>)

ChunkStep(s, b) ==
    LET c == s.c IN
    CASE c = "Len1" ->
            IF b = 48 THEN To([s EXCEPT !.c = "LenEnd", !.len = 0],
                              <<E("chunk_begin"), T("#len", 0)>>)
            ELSE IF IsHex(b) THEN To([s EXCEPT !.c = "Len2", !.len = Acc(0, 16, HexVal(b))],
                                     <<E("chunk_begin"), T("#len", HexVal(b))>>)
            ELSE Fail("ChunkLength", <<>>)
      [] c \in {"Len2", "Len3", "Len4", "Len5", "Len6", "Len7", "Len8"} ->
            IF IsHex(b) THEN To([s EXCEPT !.c = NextLen(c), !.len = Acc(s.len, 16, HexVal(b))],
                                <<T("#len", HexVal(b))>>)
            ELSE LenDone(s, b)
      [] c = "LenEnd"      -> LenDone(s, b)
      [] c = "ExtStrip"    -> IF IsBlank(b) THEN Go(s, "ExtStrip")
                              ELSE IF IsVisible(b) THEN ExtNameByte(s, b)
                              ELSE Fail("ChunkExtensionName", <<>>)
      [] c = "ExtName"     -> ExtNameByte(s, b)
      [] c = "ExtValStrip" -> IF IsBlank(b) THEN Go(s, "ExtValStrip")
                              ELSE IF IsVisible(b) THEN ExtValByte(s, b)
                              ELSE Fail("ChunkExtensionValue", <<>>)
      [] c = "ExtVal"      -> ExtValByte(s, b)
      [] c = "ExtQuoted"   -> IF IsQuoted(b) THEN Emit(s, "ExtQuoted", <<T("xvalue", b)>>)
                              ELSE IF b = QUOTE THEN Go(s, "ExtVal")
                              ELSE IF b = BSLASH THEN Go(s, "ExtEscaped")
                              ELSE Fail("ChunkExtensionValue", <<>>)
      [] c = "ExtEscaped"  -> IF IsEscaped(b) THEN Emit(s, "ExtQuoted", <<T("xvalue", b)>>)
                              ELSE Fail("ChunkExtensionValue", <<>>)
      [] c = "LenLf"       -> IF b # LF THEN Fail("CrlfSequence", <<>>)
                              ELSE IF s.len = 0 THEN Go(s, "Hdr") ELSE Go(s, "ChunkData")
      [] c = "ChunkData"   -> To([s EXCEPT !.len = Dec(s.len),
                                           !.c = IF s.len = 1 THEN "ChunkCr" ELSE "ChunkData"],
                                 <<T("chunk", b)>>)
      [] c = "ChunkCr"     -> IF b = CR THEN Go(s, "ChunkLf") ELSE Fail("CrlfSequence", <<>>)
      [] c = "ChunkLf"     -> IF b = LF THEN Go(s, "Len1") ELSE Fail("CrlfSequence", <<>>)

(***************************************************************************)
(* Multipart bodies.  k counts matched boundary bytes in "Bnd"; len is 1   *)
(* in the delimiter locations when only a boundary is acceptable, and 0    *)
(* when what looks like one may turn out to be data ("scanning").          *)
(***************************************************************************)
Bnd(s) == Boundaries[s.bd]

ScanByte(s, b, held) ==
    LET t == [s EXCEPT !.len = 0, !.k = 0] IN
    IF b = CR THEN Emit(t, "ScanLf", Ts("part", held))
    ELSE Emit(t, "Scan", Ts("part", held) \o <<T("part", b)>>)

\* not the delimiter after all
NotDelimiter(s, b, held) == IF s.len = 1 THEN Fail("MultipartBoundary", <<>>)
                            ELSE ScanByte(s, b, held)

MultiStep(s, b) ==
    LET c == s.c IN
    CASE c = "Hy1"    -> IF b = HYPHEN THEN Go(s, "Hy2") ELSE NotDelimiter(s, b, <<CR, LF>>)
      [] c = "Hy2"    -> IF b = HYPHEN THEN Go(s, "Bnd") ELSE NotDelimiter(s, b, <<CR, LF, HYPHEN>>)
      [] c = "Bnd"    -> IF b = Bnd(s)[s.k + 1]
                         THEN IF s.k + 1 = Len(Bnd(s))
                              THEN To([s EXCEPT !.c = "BndEnd", !.k = 0, !.len = 0], <<>>)
                              ELSE To([s EXCEPT !.k = s.k + 1], <<>>)
                         ELSE NotDelimiter(s, b, <<CR, LF, HYPHEN, HYPHEN>> \o SubSeq(Bnd(s), 1, s.k))
      [] c = "BndEnd" -> IF b = CR THEN Emit(s, "InitLf", <<E("multipart_begin")>>)
                         ELSE IF b = HYPHEN THEN Go(s, "Fin")
                         ELSE Fail("MultipartBoundary", <<>>)
      [] c = "Fin"    -> IF b = HYPHEN THEN To(Done, <<E("body_finished")>>)
                         ELSE Fail("MultipartBoundary", <<>>)
      [] c = "PartData" -> To([s EXCEPT !.len = Dec(s.len),
                                        !.c = IF s.len = 1 THEN "PartCr" ELSE "PartData"],
                              <<T("part", b)>>)
      [] c = "PartCr" -> IF b = CR THEN Go(s, "PartLf") ELSE Fail("MultipartBoundary", <<>>)
      [] c = "PartLf" -> IF b = LF THEN To([s EXCEPT !.c = "Hy1", !.len = 1], <<>>)
                         ELSE Fail("MultipartBoundary", <<>>)
      [] c = "Scan"   -> ScanByte(s, b, <<>>)
      [] c = "ScanLf" -> IF b = LF THEN To([s EXCEPT !.c = "Hy1", !.len = 0], <<>>)
                         ELSE ScanByte(s, b, <<CR>>)

\* After the headers of a part the handler is asked for the length of its data.
\* This consumes no byte.  -1 stands for "not known".
Answers == {-1} \cup 0..BIG
Answer(s, n) ==
    IF n = -1 THEN [s EXCEPT !.c = "Scan", !.len = 0]
    ELSE IF n = 0 THEN [s EXCEPT !.c = "PartCr", !.len = 0]
    ELSE [s EXCEPT !.c = "PartData", !.len = IF n > MaxLen THEN BIG ELSE n]

(***************************************************************************)
(* URL-encoded bodies; len counts the bytes of the body that are left.     *)
(***************************************************************************)
UNameByte(s, b) ==
    IF b = PERCENT THEN Go(s, "UNameH1")
    ELSE IF b = PLUS THEN Emit(s, "UName", <<T("uname", SP)>>)
    ELSE IF b = EQ THEN Go(s, "UValue")
    ELSE IF b = AMP \/ b = SEMI THEN Go(s, "UFirst")
    ELSE IF IsVisible(b) THEN Emit(s, "UName", <<T("uname", b)>>)
    ELSE Fail("UrlEncodedName", <<>>)

UValueByte(s, b) ==
    IF b = PERCENT THEN Go(s, "UValueH1")
    ELSE IF b = PLUS THEN Emit(s, "UValue", <<T("uvalue", SP)>>)
    ELSE IF b = AMP \/ b = SEMI THEN Go(s, "UFirst")
    ELSE IF IsVisible(b) THEN Emit(s, "UValue", <<T("uvalue", b)>>)
    ELSE Fail("UrlEncodedValue", <<>>)

Before(ev, r) == [r EXCEPT !.ev = ev \o r.ev]

UrlByte(s, b) ==
    LET c == s.c IN
    CASE c = "UFirst"   -> Before(<<E("url_begin")>>, UNameByte(s, b))
      [] c = "UName"    -> UNameByte(s, b)
      [] c = "UNameH1"  -> IF IsHex(b) THEN To([s EXCEPT !.c = "UNameH2", !.k = HexVal(b)], <<>>)
                           ELSE Fail("UrlEncodedName", <<>>)
      [] c = "UNameH2"  -> IF IsHex(b) THEN To([s EXCEPT !.c = "UName", !.k = 0],
                                               <<T("uname", s.k * 16 + HexVal(b))>>)
                           ELSE Fail("UrlEncodedName", <<>>)
      [] c = "UValue"   -> UValueByte(s, b)
      [] c = "UValueH1" -> IF IsHex(b) THEN To([s EXCEPT !.c = "UValueH2", !.k = HexVal(b)], <<>>)
                           ELSE Fail("UrlEncodedValue", <<>>)
      [] c = "UValueH2" -> IF IsHex(b) THEN To([s EXCEPT !.c = "UValue", !.k = 0],
                                               <<T("uvalue", s.k * 16 + HexVal(b))>>)
                           ELSE Fail("UrlEncodedValue", <<>>)

\* the body ends with its last byte, whatever the location
UrlStep(s, b) ==
    LET r == UrlByte(s, b) IN
    IF r.er # "" THEN r
    ELSE IF s.len = 1 THEN To(Done, r.ev \o <<E("body_finished")>>)
    ELSE To([r.nx EXCEPT !.len = Dec(s.len)], r.ev)

(***************************************************************************)
(* The machine.                                                            *)
(***************************************************************************)
Step(s, b) ==
    IF s.c \in StartCtl THEN StartStep(s, b)
    ELSE IF s.c \in HeaderCtl THEN HeaderStep(s, b)
    ELSE IF s.c \in ChunkCtl THEN ChunkStep(s, b)
    ELSE IF s.c \in MultiCtl THEN MultiStep(s, b)
    ELSE UrlStep(s, b)

Fresh        == State("Fresh", "head", 0, 0, 0)      \* a new parser
InitHead     == State("Start", "head", 0, 0, 0)
InitChunked  == State("Len1", "chunked", 0, 0, 0)
InitMulti(i) == State("Hy1", "multipart", 1, i, 0)
\* an empty URL-encoded body is finished before its first byte
InitUrl(n)   == State(IF n = 0 THEN "UEmpty" ELSE "UFirst", "url", IF n > MaxLen THEN BIG ELSE n, 0, 0)
UrlEmptyEnd  == To(Done, <<E("body_finished")>>)

Group(s) == IF s.c \in StartCtl THEN "start"
            ELSE IF s.c \in HeaderCtl THEN "header"
            ELSE IF s.c \in ChunkCtl THEN "chunk"
            ELSE IF s.c \in MultiCtl THEN "multipart"
            ELSE IF s.c \in UrlCtl \cup {"UEmpty"} THEN "url"
            ELSE "end"

(***************************************************************************)
(* The part of the message a parser waits in for its next byte, as         *)
(* state() tells it.                                                       *)
(***************************************************************************)
Phase(s) ==
    LET c == s.c IN
    CASE c \in {"Fresh", "Start", "H1", "H2", "H3", "H4"} -> "start"
      [] c = "Method" -> "method"
      [] c \in {"Url1", "Url"} -> "url"
      [] c \in {"Http1", "Http2", "Http3", "Http4", "Http5", "QMaj1", "QMaj2", "QMaj3", "QDot",
                "QMin1", "QMin2", "QMin3", "QEnd"} -> "request-version"
      [] c \in {"PMaj1", "PMaj2", "PMaj3", "PDot", "PMin1", "PMin2", "PMin3", "PEnd"} -> "response-version"
      [] c \in {"Code1", "Code2", "Code3", "CodeEnd"} -> "status-code"
      [] c \in {"Status1", "Status"} -> "status"
      [] c = "InitLf" -> "initial-end"
      [] c \in {"Hdr", "HdrLf", "EndLf"} -> "header-end"
      [] c = "Name" -> "header-name"
      [] c \in {"Strip", "Value", "Quoted", "Escaped"} -> "header-value"
      [] c \in {"Len1", "Len2", "Len3", "Len4", "Len5", "Len6", "Len7", "Len8", "LenEnd", "LenLf"} -> "chunk-length"
      [] c \in {"ExtStrip", "ExtName"} -> "extension-name"
      [] c \in {"ExtValStrip", "ExtVal", "ExtQuoted", "ExtEscaped"} -> "extension-value"
      [] c \in {"ChunkData", "ChunkCr", "ChunkLf"} -> "chunk-data"
      [] c \in {"Hy1", "Hy2", "Bnd", "BndEnd", "Fin"} -> "boundary"
      [] c \in {"Ask", "PartData", "PartCr", "PartLf", "Scan", "ScanLf"} -> "part-data"
      [] c \in {"UFirst", "UName", "UNameH1", "UNameH2"} -> "url-name"
      [] c \in {"UValue", "UValueH1", "UValueH2"} -> "url-value"
      [] OTHER -> "end"

TypeOK(s) == /\ s.c \in StartCtl \cup HeaderCtl \cup ChunkCtl \cup MultiCtl \cup UrlCtl
                       \cup EndCtl \cup {"UEmpty"}
             /\ s.ty \in Types \cup {"none"}
             /\ s.len \in 0..BIG
             /\ s.bd \in 0..Len(Boundaries)
             /\ s.k \in 0..400
=============================================================================

---------------------------- MODULE Http1Messages ----------------------------
(***************************************************************************)
(* HTTP/1.x messages as their sender sees them, how they are written, and  *)
(* what the receiver has to learn from them.                               *)
(*                                                                         *)
(* A message is a line, fields and a body.  Written(m) is its bytes;       *)
(* whatever can be written in more than one way (the case of a name, blanks*)
(* in front of a value, a folded line, a quoted string, a byte or its hex  *)
(* sequence, the pieces a body is cut into) is a part of m, but not of     *)
(* Report(m), save where the library reports it.                           *)
(*                                                                         *)
(* Msg(n) is message number n of an endless supply: everything in it is    *)
(* drawn by number.                                                        *)
(***************************************************************************)
EXTENDS Bytes, Draw, FiniteSets

CONSTANTS MBoundaries,     \* of multipart bodies
          MWords           \* texts that a receiver might treat specially

(***************************************************************************)
(* Text as bytes.                                                          *)
(***************************************************************************)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..95} |-> 31 + CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c]
B(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]
Lowered(t) == [i \in 1..Len(t) |-> Lower(t[i])]
CrLf == <<CR, LF>>
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
HexDigit(d, up) == IF d < 10 THEN 48 + d ELSE IF up THEN 55 + d ELSE 87 + d
RECURSIVE HexDigits(_)
HexDigits(n) == IF n = 0 THEN <<>> ELSE Append(HexDigits(n \div 16), n % 16)
RECURSIVE DecDigits(_)
DecDigits(n) == IF n = 0 THEN <<>> ELSE Append(DecDigits(n \div 10), n % 10)

\* bytes a text may be made of
Tokens == SelectSeq(Span(33, 126), IsToken)
Fields == <<TAB>> \o SelectSeq(Span(32, 255), IsField)
Starts == SelectSeq(Span(33, 126), LAMBDA b : b # QUOTE)
Quoteds == SelectSeq(Span(32, 255), IsQuoted)
Escapeds == Span(32, 122)
Ascii == Span(0, 127)
Critical == <<CR, LF, HYPHEN, HYPHEN, CR, LF, 98, 48, COLON, SP, 0, 255>>

Some(n, i, k, sigma) == <<Pick(n, i + k, sigma)>> \o LongChars(n, i, k, sigma)

\* texts that everybody knows, and others
AllOf(ws, Is(_)) == SelectSeq(ws, LAMBDA w : w # <<>> /\ \A j \in 1..Len(w) : Is(w[j]))
Bs(strs) == [j \in 1..Len(strs) |-> B(strs[j])]
Framing == {B(x) : x \in {"content-length", "content-type", "transfer-encoding", "content-disposition"}}
WordNames == SelectSeq(Bs(<<"Accept", "Accept-Charset", "Accept-Encoding", "Accept-Language", "Accept-Ranges", "Age", "Allow",
                  "Authorization", "Cache-Control", "Connection", "Content-Encoding", "Content-Language", "Content-Location",
                  "Content-MD5", "Content-Range", "Cookie", "Date", "DNT", "ETag", "Expect", "Expires", "From", "Host",
                  "If-Match", "If-Modified-Since", "If-None-Match", "If-Range", "If-Unmodified-Since", "Keep-Alive",
                  "Last-Modified", "Location", "Max-Forwards", "Origin", "Pragma", "Proxy-Authenticate", "Proxy-Authorization",
                  "Range", "Referer", "Retry-After", "Server", "Set-Cookie", "TE", "Trailer", "Upgrade", "User-Agent", "Vary",
                  "Via", "Warning", "WWW-Authenticate", "X-Forwarded-For", "X-Powered-By", "X-XSS-Protection">>)
                  \o AllOf(MWords, IsToken), LAMBDA w : Lowered(w) \notin Framing)
WordMethods == Bs(<<"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT", "PATCH", "PRI", "H", "HT", "HTT", "HTTP",
                    "HTTPS", "X">>) \o AllOf(MWords, IsUpper)
WordValues == SelectSeq(Bs(<<"close", "keep-alive", "text/html", "gzip", "*/*", "0", "no-cache", "chunked", "100-continue">>)
                        \o AllOf(MWords, IsField), LAMBDA w : IsVisible(w[1]))
WordTexts == Bs(<<"a", "id", "%", "+", "a=b&c">>) \o AllOf(MWords, LAMBDA b : b < 128)
\* a name may be written in upper and lower case
Cased(n, i, t) == LET how == R(n, i, 4) IN
    [j \in 1..Len(t) |-> IF how = 0 THEN t[j] ELSE IF how = 1 THEN Lower(t[j])
                         ELSE IF Lower(t[j]) \in 97..122 /\ (how = 2 \/ R(n, i + j, 2) = 0) THEN Lower(t[j]) - 32 ELSE Lower(t[j])]

(***************************************************************************)
(* Url encoding.  A piece of text is a sequence of [b, how]; how says how  *)
(* the byte is written.                                                    *)
(***************************************************************************)
Special == {PERCENT, PLUS, AMP, SEMI, EQ}
Hex(b, how) == <<PERCENT, HexDigit(b \div 16, how % 2 = 0), HexDigit(b % 16, how \div 2 = 1)>>
Letter(l, must) == IF l.b = SP /\ l.how < 3 THEN <<PLUS>>
                   ELSE IF IsVisible(l.b) /\ l.b \notin must /\ l.how < 3 THEN <<l.b>>
                   ELSE Hex(l.b, l.how % 4)
Letters(n, i, k, sigma) ==
    LET t == IF R(n, i + 18, 6) = 0 THEN Pick(n, i + 19, WordTexts) ELSE LongChars(n, i, k, sigma)
    IN [j \in 1..Len(t) |-> [b |-> t[j], how |-> R(n, i + j + 17, 6)]]
Encode(t, must) == Flat([j \in 1..Len(t) |-> Letter(t[j], must)])
Plain(t) == [j \in 1..Len(t) |-> t[j].b]

\* a pair: a name, and a value or none; the pair that is not there at all is not one
PairOf(n, i, k, sigma) ==
    LET name == Letters(n, i, 5, sigma)
        has == R(n, i + 50, 3) > 0
    IN [name |-> IF name = <<>> /\ (~has \/ k = 1) THEN <<[b |-> 97, how |-> R(n, i + 51, 6)]>> ELSE name,
        has |-> has, value |-> IF has THEN Letters(n, i + 60, 6, sigma) ELSE <<>>]
PairsOf(n, i, sigma) == Times(n, i, 4, LAMBDA k : PairOf(n, i + 100 * k, k, sigma))
WPair(p, must) == Encode(p.name, must) \o (IF p.has THEN <<EQ>> \o Encode(p.value, must \ {EQ}) ELSE <<>>)
WPairs(ps, seps, must) == Flat([k \in 1..Len(ps) |-> (IF k = 1 THEN <<>> ELSE <<seps[k]>>) \o WPair(ps[k], must)])

(***************************************************************************)
(* Fields: a name, blanks, a value, and where its line is folded (0: not). *)
(***************************************************************************)
Quote(n, i) == LET t == Times(n, i, 6, LAMBDA j : IF R(n, i + j + 9, 4) = 0 THEN <<BSLASH, Pick(n, i + j, Escapeds)>>
                                                   ELSE <<Pick(n, i + j, Quoteds)>>)
               IN <<QUOTE>> \o Flat(t) \o <<QUOTE>>
\* a text in quotes; a letter may be written with a backslash
InQuotes(n, i, t) == <<QUOTE>> \o Flat([j \in 1..Len(t) |-> IF t[j] \in {QUOTE, BSLASH} \/ (R(n, i + j, 9) = 0 /\ IsEscaped(t[j]))
                                                           THEN <<BSLASH, t[j]>> ELSE <<t[j]>>]) \o <<QUOTE>>
FieldOf(n, i) ==
    LET plain == IF R(n, i + 22, 5) = 0 THEN Pick(n, i + 23, WordValues)
                 ELSE <<Pick(n, i + 10, Starts)>> \o LongChars(n, i + 11, 7, Fields)
        style == R(n, i + 20, 4)
    IN [name |-> IF R(n, i + 29, 2) = 0 THEN Some(n, i + 30, 5, Tokens) ELSE Cased(n, i + 31, Pick(n, i + 30, WordNames)),
        lead |-> Chars(n, i + 40, 3, <<SP, TAB>>),
        value |-> IF style = 0 THEN Quote(n, i + 45)
                  ELSE IF style = 1 THEN <<Pick(n, i + 10, Starts)>> \o Quote(n, i + 45) \o Chars(n, i + 11, 3, Fields) ELSE plain,
        fold |-> IF style = 2 THEN R(n, i + 21, Len(plain) + 1) ELSE 0]
FieldsOf(n, i, k) == Times(n, i, k, LAMBDA j : FieldOf(n, i + 70 * j))

\* now and then a message has a lot of one thing, each of it small
Wide(n) == IF R(n, 900, 250) # 0 THEN "" ELSE Pick(n, 901, <<"fields", "chunks", "extensions", "parts", "pairs", "trailer">>)
Many(n, F(_)) == [j \in 1..Pick(n, 902, <<130, 257, 300>>) |-> F(j)]
SmallField(n, i) == [name |-> <<97 + R(n, i, 26)>>, lead |-> <<>>, value |-> <<98 + R(n, i + 1, 20)>>, fold |-> 0]
SmallFields(n) == Many(n, LAMBDA j : SmallField(n, 3 * j))
Given(n, i, name, value) == [name |-> Cased(n, i, B(name)),
                             lead |-> IF R(n, i + 1, 3) = 0 THEN <<>> ELSE <<SP>>, value |-> value, fold |-> 0]
WField(f) == f.name \o <<COLON>> \o f.lead
             \o (IF f.fold = 0 THEN f.value
                 ELSE SubSeq(f.value, 1, f.fold) \o CrLf \o <<SP>> \o SubSeq(f.value, f.fold + 1, Len(f.value)))
             \o CrLf
WFields(fs) == Flat([k \in 1..Len(fs) |-> WField(fs[k])]) \o CrLf

(***************************************************************************)
(* Reports: items <<name, bytes or digits>>; an item without bytes is not  *)
(* reported.                                                               *)
(***************************************************************************)
RFields(fs) == Flat([k \in 1..Len(fs) |-> Data("hname", Lowered(fs[k].name)) \o Data("hvalue", fs[k].value)])
               \o Ev("headers_finished")
RPairs(ps) == Flat([k \in 1..Len(ps) |-> Item("query-name", Plain(ps[k].name))
                                         \o (IF ps[k].has THEN Item("query-value", Plain(ps[k].value)) ELSE <<>>)])

(***************************************************************************)
(* Lines.                                                                  *)
(***************************************************************************)
Versions == << <<1, 1>>, <<1, 0>>, <<0, 9>>, <<10, 205>>, <<999, 30>>, <<2, 0>>, <<1, 100>> >>
PathMust == Special \cup {63}
LineOf(n) ==
    IF R(n, 1, 3) < 2
    THEN [of |-> "request",
          method |-> IF R(n, 8, 5) = 0 THEN Some(n, 9, 6, Span(65, 90)) ELSE Pick(n, 2, WordMethods),
          path |-> <<[b |-> SLASH, how |-> 0]>> \o Letters(n, 3, 7, Ascii),
          pairs |-> PairsOf(n, 100, Ascii), asked |-> R(n, 5, 3) = 0,
          seps |-> [k \in 1..4 |-> IF R(n, 90 + k, 4) = 0 THEN SEMI ELSE AMP], version |-> Pick(n, 6, Versions)]
    ELSE [of |-> "response", version |-> Pick(n, 6, Versions), code |-> Pick(n, 7, <<200, 404, 100, 7, 999, 0, R(n, 8, 1000)>>),
          reason |-> Some(n, 60, 8, SelectSeq(Span(32, 255), IsText))]
Target(l) == Encode(l.path, PathMust) \o (IF l.pairs = <<>> /\ ~l.asked THEN <<>>
                                          ELSE <<63>> \o WPairs(l.pairs, l.seps, Special))
WVersion(v) == B_HTTP \o Decimal(v[1]) \o <<DOT>> \o Decimal(v[2])
Three(k) == <<48 + (k \div 100), 48 + ((k \div 10) % 10), 48 + (k % 10)>>
WLine(l) == IF l.of = "request" THEN l.method \o <<SP>> \o Target(l) \o <<SP>> \o WVersion(l.version) \o CrLf
            ELSE WVersion(l.version) \o <<SP>> \o Three(l.code) \o <<SP>> \o l.reason \o CrLf
RVersion(v) == Item("version", DecDigits(v[1]) \o <<-1>> \o DecDigits(v[2]))
RLine(l) == IF l.of = "request" THEN Data("method", l.method) \o Data("url", Target(l)) \o RVersion(l.version)
                                     \o Ev("initial_finished")
            ELSE RVersion(l.version) \o Item("status_code", DecDigits(l.code)) \o Data("status", l.reason)
                 \o Ev("initial_finished")
\* what the target means to who asks for it
RTarget(l) == IF l.of = "request" THEN Item("path", Plain(l.path)) \o RPairs(l.pairs) ELSE <<>>

(***************************************************************************)
(* Bodies.                                                                 *)
(***************************************************************************)
ExtOf(n, i) ==
    LET style == R(n, i + 1, 3)      \* without a value, plain, quoted
        text == Times(n, i + 30, 5, LAMBDA j : IF R(n, i + j + 50, 3) = 0 THEN [b |-> Pick(n, i + j + 30, Escapeds), esc |-> TRUE]
                                               ELSE [b |-> Pick(n, i + j + 30, Quoteds), esc |-> FALSE])
        plain == SelectSeq(IF R(n, i + 5, 4) = 0 THEN Pick(n, i + 3, WordValues)
                           ELSE <<Pick(n, i + 3, Starts)>> \o LongChars(n, i + 4, 4, Fields), LAMBDA b : b # SEMI)
    IN [name |-> IF R(n, i + 9, 4) = 0 THEN Cased(n, i + 11, Pick(n, i + 10, WordNames)) ELSE Some(n, i + 10, 4, Tokens), lead |-> Chars(n, i + 20, 2, <<SP, TAB>>),
        w |-> IF style = 0 THEN <<>>
              ELSE IF style = 1 /\ plain # <<>> /\ IsVisible(plain[1]) THEN <<EQ>> \o plain
              ELSE <<EQ, QUOTE>> \o Flat([j \in 1..Len(text) |-> IF text[j].esc THEN <<BSLASH, text[j].b>> ELSE <<text[j].b>>])
                   \o <<QUOTE>>,
        value |-> IF style = 0 THEN <<>>
                  ELSE IF style = 1 /\ plain # <<>> /\ IsVisible(plain[1]) THEN plain
                  ELSE [j \in 1..Len(text) |-> text[j].b]]
ChunkOf(n, i) == [data |-> Some(n, i, IF R(n, i + 1, 5) = 0 THEN 300 ELSE 6, IF R(n, i + 2, 2) = 0 THEN Critical ELSE All),
                  exts |-> Times(n, i + 40, 3, LAMBDA k : ExtOf(n, i + 90 * k)),
                  up |-> R(n, i + 3, 2) = 0]
WExts(es) == Flat([k \in 1..Len(es) |-> <<SEMI>> \o es[k].lead \o es[k].name \o es[k].w])
RExts(es) == Flat([k \in 1..Len(es) |-> Data("xname", Lowered(es[k].name)) \o Data("xvalue", es[k].value) \o Ev("ext_finished")])
WChunk(c) == [k \in 1..Len(HexDigits(Len(c.data))) |-> HexDigit(HexDigits(Len(c.data))[k], c.up)]
             \o WExts(c.exts) \o CrLf \o c.data \o CrLf
RChunk(c) == Ev("chunk_begin") \o Item("chunk_length", HexDigits(Len(c.data))) \o RExts(c.exts) \o Ev("exts_finished")
             \o Data("chunk", c.data)

\* data in which the delimiter does not occur
Delimiter(b) == CrLf \o <<HYPHEN, HYPHEN>> \o b
\* pieces of the delimiter and of other things
Shreds(n, i, b) == Flat(Times(n, i, 6, LAMBDA j : LET del == Delimiter(b) IN
                        IF R(n, i + j + 20, 2) = 0 THEN SubSeq(del, 1, R(n, i + j, Len(del)))
                        ELSE IF R(n, i + j + 30, 4) = 0 THEN Pick(n, i + j, WordTexts)
                        ELSE IF R(n, i + j + 30, 4) = 1 THEN LongChars(n, i + j + 31, 5, All)
                        ELSE <<Pick(n, i + j, All)>>))
PartOf(n, i, b) ==
    LET data == Shreds(n, i, b)
        known == R(n, i + 5, 2) = 0
        named == R(n, i + 6, 2) = 0
        name == Chars(n, i + 400, 6, Span(32, 126))
        fs == FieldsOf(n, i + 10, 3)
              \o (IF named THEN <<Given(n, i + 302, "Content-Disposition", B("form-data; name=") \o InQuotes(n, i + 310, name))>>
                  ELSE <<>>)
    IN [data |-> data, known |-> known, named |-> named, name |-> name,
        fields |-> IF known THEN Append(fs, Given(n, i + 300, "Content-Length", Decimal(Len(data)))) ELSE fs]
\* a part whose length is not given ends at the first delimiter
Proper(p, b) == p.known \/ (LET t == p.data \o Delimiter(b) IN
                            \A i \in 1..Len(p.data) : ~IsPrefix(Delimiter(b), SubSeq(t, i, Len(t))))
PartsOf(n, i, b) == LET ps == <<PartOf(n, i, b)>> \o Times(n, i + 1, 3, LAMBDA k : PartOf(n, i + 700 * k, b)) IN
                    [k \in 1..Len(ps) |-> IF Proper(ps[k], b) THEN ps[k] ELSE [ps[k] EXCEPT !.data = <<65>>]]
WPart(p, b) == <<HYPHEN, HYPHEN>> \o b \o CrLf \o WFields(p.fields) \o p.data \o CrLf
RPart(p) == Ev("multipart_begin") \o RFields(p.fields) \o (IF p.named THEN Item("part-name", p.name) ELSE <<>>)
            \o Data("part", p.data)

SmallExts(n) == Many(n, LAMBDA j : [name |-> <<97 + R(n, j, 26)>>, lead |-> <<>>, w |-> <<EQ, 98>>, value |-> <<98>>])
SmallChunk(n, j) == [data |-> <<R(n, j, 256)>>, exts |-> <<>>, up |-> TRUE]
SmallPart(n, j) == LET known == R(n, j, 2) = 0 IN
    [data |-> <<R(n, j + 1, 256)>>, known |-> known, named |-> FALSE, name |-> <<>>,
     fields |-> IF known THEN <<Given(n, j, "Content-Length", <<49>>)>> ELSE <<>>]
SmallPairs(n) == Many(n, LAMBDA j : [name |-> <<[b |-> 97 + R(n, j, 26), how |-> 0]>>, has |-> R(n, j, 2) = 0,
                                     value |-> IF R(n, j, 2) = 0 THEN <<[b |-> 97, how |-> 5]>> ELSE <<>>])
BodyOf(n) ==
    LET wide == Wide(n)
        kind == CASE wide \in {"chunks", "extensions", "trailer"} -> "chunked"
                  [] wide = "parts" -> "multipart" [] wide = "pairs" -> "url"
                  [] OTHER -> Pick(n, 8, <<"none", "raw", "chunked", "chunked", "multipart", "multipart", "url">>)
    IN
    CASE kind = "none"      -> [of |-> kind]
      [] kind = "raw"       -> [of |-> kind, data |-> LongChars(n, 9, 30, IF R(n, 10, 2) = 0 THEN Critical ELSE All)]
      [] kind = "chunked"   -> [of |-> kind, chunks |-> IF wide = "chunks" THEN Many(n, LAMBDA j : SmallChunk(n, j))
                                           ELSE Times(n, 11, 4, LAMBDA k : ChunkOf(n, 1000 + 600 * k)),
                                exts |-> IF wide = "extensions" THEN SmallExts(n) ELSE Times(n, 12, 2, LAMBDA k : ExtOf(n, 700 * k)),
                                trailer |-> IF wide = "trailer" THEN SmallFields(n) ELSE FieldsOf(n, 13, 3)]
      [] kind = "multipart" -> LET i == IF wide = "parts" THEN 1 + 2 * R(n, 14, 2) ELSE R(n, 14, Len(MBoundaries)) + 1 IN
                               [of |-> kind, b |-> i, parts |-> IF wide = "parts" THEN Many(n, LAMBDA j : SmallPart(n, 3 * j))
                                                                ELSE PartsOf(n, 2000, MBoundaries[i])]
      [] kind = "url"       -> [of |-> kind, pairs |-> IF wide = "pairs" THEN SmallPairs(n) ELSE PairsOf(n, 5000, All),
                                seps |-> [k \in 1..(IF wide = "pairs" THEN 300 ELSE 4) |-> Pick(n, 15 + k, <<AMP, SEMI>>)]]
WUrl(b) == WPairs(b.pairs, b.seps, Special)
WBody(b) ==
    CASE b.of = "none"      -> <<>>
      [] b.of = "raw"       -> b.data
      [] b.of = "chunked"   -> Flat([k \in 1..Len(b.chunks) |-> WChunk(b.chunks[k])]) \o <<48>> \o WExts(b.exts) \o CrLf
                               \o WFields(b.trailer)
      [] b.of = "multipart" -> Flat([k \in 1..Len(b.parts) |-> WPart(b.parts[k], MBoundaries[b.b])])
                               \o <<HYPHEN, HYPHEN>> \o MBoundaries[b.b] \o <<HYPHEN, HYPHEN>>
      [] b.of = "url"       -> WUrl(b)
RBody(b) ==
    CASE b.of = "none"      -> <<>>
      [] b.of = "raw"       -> Data("raw", b.data)
      [] b.of = "chunked"   -> Flat([k \in 1..Len(b.chunks) |-> RChunk(b.chunks[k])])
                               \o Ev("chunk_begin") \o Item("chunk_length", <<>>)
                               \o (IF b.exts = <<>> THEN <<>> ELSE RExts(b.exts) \o Ev("exts_finished"))
                               \o RFields(b.trailer) \o Ev("body_finished")
      [] b.of = "multipart" -> Flat([k \in 1..Len(b.parts) |-> RPart(b.parts[k])]) \o Ev("body_finished")
      [] b.of = "url"       -> Flat([k \in 1..Len(b.pairs) |-> Ev("url_begin") \o Data("uname", Plain(b.pairs[k].name))
                                                               \o Data("uvalue", Plain(b.pairs[k].value))])
                               \o Ev("body_finished")

\* what the fields of the head say about the body.  A boundary may have to be quoted.
WBoundary(n, b) == LET ok == \A j \in 1..Len(b) : IsToken(b[j]) IN
    IF ok /\ R(n, 20, 2) = 0 THEN b ELSE InQuotes(n, 20, b)
Param(n, i) == Pick(n, i, <<"", "; charset=utf-8", ";q=\"a;b\"", "; x">>)
FieldsFor(n, b) ==
    CASE b.of = "none"      -> IF R(n, 30, 2) = 0 THEN <<>> ELSE <<Given(n, 31, "Content-Length", <<48>>)>>
      [] b.of = "raw"       -> <<Given(n, 31, "Content-Type", B("application/octet-stream" \o Param(n, 33))),
                                 Given(n, 32, "Content-Length", Decimal(Len(b.data)))>>
      [] b.of = "chunked"   -> <<Given(n, 31, "Transfer-Encoding", B("chunked"))>>
      [] b.of = "multipart" -> <<Given(n, 31, "Content-Type", B("multipart/form-data" \o Param(n, 33) \o "; boundary=")
                                       \o WBoundary(n, MBoundaries[b.b]) \o B(Param(n, 34)))>>
      [] b.of = "url"       -> <<Given(n, 32, "Content-Length", Decimal(Len(WUrl(b)))),
                                 Given(n, 31, "Content-Type", B(Pick(n, 35, <<"application/x-www-form-urlencoded",
                                                                              "Application/X-WWW-Form-Urlencoded">>) \o Param(n, 33)))>>

(***************************************************************************)
(* Messages.  Line breaks in front of one are nobody's.                    *)
(***************************************************************************)
Msg(n) == LET b == BodyOf(n)
              fs == IF Wide(n) = "fields" THEN SmallFields(n) ELSE FieldsOf(n, 400, 4)
              k == R(n, 36, Len(fs) + 1)
          IN [lead |-> Flat(Times(n, 37, 3, LAMBDA j : CrLf)), line |-> LineOf(n), body |-> b,
              fields |-> SubSeq(fs, 1, k) \o FieldsFor(n, b) \o SubSeq(fs, k + 1, Len(fs))]
Written(m) == m.lead \o WLine(m.line) \o WFields(m.fields) \o WBody(m.body)
Report(m) == RLine(m.line) \o RFields(m.fields) \o RTarget(m.line) \o RBody(m.body)

(***************************************************************************)
(* Where data of a given length lies: data that is longer, with a number   *)
(* that says so, is another message.  <<where the number is written, its   *)
(* size and base, where the data lies, its size, and both in the report>>  *)
(***************************************************************************)
Lens(ss) == Len(Flat(ss))
LengthAt(fs) == CHOOSE j \in 1..Len(fs) : Lowered(fs[j].name) = B("content-length")
NumberIn(fs) == LET j == LengthAt(fs) IN
                Lens([x \in 1..(j - 1) |-> WField(fs[x])]) + Len(fs[j].name) + 1 + Len(fs[j].lead)
Stretch(m) ==
    LET head == Len(m.lead) + Len(WLine(m.line))
        at == head + Len(WFields(m.fields))
        told == Len(RLine(m.line)) + Len(RFields(m.fields)) + Len(RTarget(m.line))
        b == m.body
    IN CASE b.of = "raw" /\ b.data # <<>> ->
              << <<head + NumberIn(m.fields), Len(Decimal(Len(b.data))), 10, at, Len(b.data),
                   Len(RLine(m.line)) + 2 * LengthAt(m.fields), told + 1>> >>
         [] b.of = "chunked" ->
              [k \in 1..Len(b.chunks) |->
                 LET w == at + Lens([j \in 1..(k - 1) |-> WChunk(b.chunks[j])])
                     r == told + Lens([j \in 1..(k - 1) |-> RChunk(b.chunks[j])])
                     c == b.chunks[k]
                 IN <<w, Len(HexDigits(Len(c.data))), 16, w + Len(WChunk(c)) - 2 - Len(c.data), Len(c.data),
                      r + 2, r + Len(RChunk(c))>>]
         [] b.of = "multipart" ->
              LET ks == SelectSeq(Span(1, Len(b.parts)), LAMBDA k : b.parts[k].known /\ b.parts[k].data # <<>>) IN
              [x \in 1..Len(ks) |->
                 LET k == ks[x]
                     p == b.parts[k]
                     w == at + Lens([j \in 1..(k - 1) |-> WPart(b.parts[j], MBoundaries[b.b])])
                     r == told + Lens([j \in 1..(k - 1) |-> RPart(b.parts[j])])
                 IN <<w + 4 + Len(MBoundaries[b.b]) + NumberIn(p.fields), Len(Decimal(Len(p.data))), 10,
                      w + Len(WPart(p, MBoundaries[b.b])) - 2 - Len(p.data), Len(p.data),
                      r + 1 + 2 * LengthAt(p.fields), r + Len(RPart(p))>>]
         [] OTHER -> <<>>
=============================================================================

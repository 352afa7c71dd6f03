------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte classes used by every parser of http-box.  A byte is an integer in *)
(* 0..255; the classes follow RFC 2616 as the library documents them       *)
(* (src/byte.rs, and the visible/digit/hex macros of its byte reader).     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Byte == 0..255

TAB == 9      LF == 10      CR == 13     SP == 32
QUOTE == 34   PERCENT == 37 AMP == 38    PLUS == 43
COMMA == 44   HYPHEN == 45  DOT == 46    SLASH == 47
COLON == 58   SEMI == 59    EQ == 61     BSLASH == 92

IsUpper(b) == b \in 65..90
Lower(b)   == IF IsUpper(b) THEN b + 32 ELSE b
IsDigit(b) == b \in 48..57
IsHex(b)   == b \in 48..57 \/ b \in 65..70 \/ b \in 97..102
HexVal(b)  == IF b < 58 THEN b - 48 ELSE IF b < 71 THEN b - 55 ELSE b - 87

IsBlank(b) == b = SP \/ b = TAB                       \* linear white space
IsSpaceOrEol(b) == b \in {CR, LF, TAB, SP}

\* visible 7-bit: everything printable except the space
IsVisible(b) == b \in 33..126

\* not a control byte (the reason phrase of a response)
IsText(b) == b > 31 /\ b # 127

Separators == {40, 41, 60, 62, 64, 44, 59, 58, 92, 34, 47, 91, 93, 63, 61,
               123, 125, 32, 9}
IsToken(b) == b \in 33..126 /\ b \notin Separators

\* bytes of an unquoted field value: TAB, and any text byte but the quote
IsField(b)  == b = TAB \/ (IsText(b) /\ b # QUOTE)
\* bytes of a quoted string that need no attention
IsQuoted(b) == IsField(b) /\ b # BSLASH
\* bytes that may follow a backslash (the test suite pins the upper limit)
IsEscaped(b) == b \in 32..122

\* "HTTP/" and friends as byte sequences
B_HTTP == <<72, 84, 84, 80, 47>>
=============================================================================

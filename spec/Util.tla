-------------------------------- MODULE Util --------------------------------
(***************************************************************************)
(* Reference machines of the utilities: decode(), QueryIterator and        *)
(* FieldIterator, one input byte per step, plus what the end of the input  *)
(* means in every state.                                                   *)
(*                                                                         *)
(* A state is [m, c, k]: m is the machine - <<"decode">>, <<"query">>, or  *)
(* <<"field", delimiter, normalize>> - c the location, k the first digit   *)
(* of a hex sequence.  Tokens "out", "name" and "value" carry one byte;    *)
(* "item" ends a pair without a value, "item_v" one with a value.          *)
(***************************************************************************)
EXTENDS Bytes

DataTokens  == {"out", "name", "value"}
EventTokens == {"item", "item_v"}
ErrorKinds  == {"Byte", "HexSequence", "Name", "Value"}

State(m, c, k) == [m |-> m, c |-> c, k |-> k]
Dead(m) == State(m, "Dead", 0)

To(s, ev)      == [nx |-> s, ev |-> ev, er |-> ""]
Emit(s, c, ev) == To([s EXCEPT !.c = c, !.k = 0], ev)
Go(s, c)       == Emit(s, c, <<>>)
Fail(s, kind)  == [nx |-> Dead(s.m), ev |-> <<>>, er |-> kind]
E(name)    == <<name, 0>>
T(name, v) == <<name, v>>

\* the two digits of a hex sequence; `back` is the location after it
Hex1(s, b, next, kind) == IF IsHex(b) THEN To([s EXCEPT !.c = next, !.k = HexVal(b)], <<>>)
                          ELSE Fail(s, kind)
Hex2(s, b, back, token, kind) == IF IsHex(b) THEN Emit(s, back, <<T(token, s.k * 16 + HexVal(b))>>)
                                 ELSE Fail(s, kind)

(***************************************************************************)
(* decode()                                                                *)
(***************************************************************************)
DecodeStep(s, b) ==
    CASE s.c = "Plain" -> IF b = PERCENT THEN Go(s, "Hex1")
                          ELSE IF b = PLUS THEN Emit(s, "Plain", <<T("out", SP)>>)
                          ELSE IF IsVisible(b) THEN Emit(s, "Plain", <<T("out", b)>>)
                          ELSE Fail(s, "Byte")
      [] s.c = "Hex1"  -> Hex1(s, b, "Hex2", "HexSequence")
      [] s.c = "Hex2"  -> Hex2(s, b, "Plain", "out", "HexSequence")

(***************************************************************************)
(* QueryIterator                                                           *)
(***************************************************************************)
QName(s, b) ==
    IF b = PERCENT THEN Go(s, "NameH1")
    ELSE IF b = PLUS THEN Emit(s, "Name", <<T("name", SP)>>)
    ELSE IF b = EQ THEN Go(s, "Value")
    ELSE IF b = AMP \/ b = SEMI THEN Emit(s, "Next", <<E("item")>>)
    ELSE IF IsVisible(b) THEN Emit(s, "Name", <<T("name", b)>>)
    ELSE Fail(s, "Name")

QueryStep(s, b) ==
    CASE s.c = "First"   -> IF b \in {EQ, AMP, SEMI} THEN Fail(s, "Name") ELSE QName(s, b)
      [] s.c = "Next"    -> QName(s, b)
      [] s.c = "Name"    -> QName(s, b)
      [] s.c = "NameH1"  -> Hex1(s, b, "NameH2", "Name")
      [] s.c = "NameH2"  -> Hex2(s, b, "Name", "name", "Name")
      [] s.c = "Value"   -> IF b = PERCENT THEN Go(s, "ValueH1")
                            ELSE IF b = PLUS THEN Emit(s, "Value", <<T("value", SP)>>)
                            ELSE IF b = AMP \/ b = SEMI THEN Emit(s, "Next", <<E("item_v")>>)
                            ELSE IF IsVisible(b) THEN Emit(s, "Value", <<T("value", b)>>)
                            ELSE Fail(s, "Value")
      [] s.c = "ValueH1" -> Hex1(s, b, "ValueH2", "Value")
      [] s.c = "ValueH2" -> Hex2(s, b, "Value", "value", "Value")

(***************************************************************************)
(* FieldIterator                                                           *)
(***************************************************************************)
Delim(s) == s.m[2]
Normal(s, b) == IF s.m[3] THEN Lower(b) ELSE b

FName(s, b) ==
    IF b = EQ THEN Go(s, "Equal")
    ELSE IF b = SLASH THEN Emit(s, "FName", <<T("name", b)>>)
    ELSE IF b = Delim(s) THEN Emit(s, "FStart", <<E("item")>>)
    ELSE IF IsToken(b) THEN Emit(s, "FName", <<T("name", Normal(s, b))>>)
    ELSE Fail(s, "Name")

FValue(s, b) ==
    IF b = Delim(s) THEN Emit(s, "FStart", <<E("item_v")>>)
    ELSE IF IsField(b) THEN Emit(s, "FValue", <<T("value", b)>>)
    ELSE Fail(s, "Value")

FieldStep(s, b) ==
    CASE s.c = "FStart" -> IF IsBlank(b) THEN Go(s, "FStart") ELSE FName(s, b)
      [] s.c = "FName"  -> FName(s, b)
      [] s.c = "Equal"  -> IF IsBlank(b) THEN Go(s, "Equal")
                           ELSE IF b = QUOTE THEN Go(s, "Quoted") ELSE FValue(s, b)
      [] s.c = "FValue" -> FValue(s, b)
      [] s.c = "Quoted" -> IF b = QUOTE THEN Go(s, "After")
                           ELSE IF b = BSLASH THEN Go(s, "Escaped")
                           ELSE IF IsQuoted(b) THEN Emit(s, "Quoted", <<T("value", b)>>)
                           ELSE Fail(s, "Value")
      [] s.c = "Escaped" -> Emit(s, "Quoted", <<T("value", b)>>)
      [] s.c = "After"  -> IF IsBlank(b) THEN Go(s, "After")
                           ELSE IF b = Delim(s) THEN Emit(s, "FStart", <<E("item_v")>>)
                           ELSE Fail(s, "Value")

Step(s, b) == CASE s.m[1] = "decode" -> DecodeStep(s, b)
                [] s.m[1] = "query"  -> QueryStep(s, b)
                [] s.m[1] = "field"  -> FieldStep(s, b)

(***************************************************************************)
(* End of the input.  An error here reports the last byte of the input.    *)
(***************************************************************************)
End(s) ==
    CASE s.c \in {"Hex1", "Hex2"}       -> Fail(s, "HexSequence")
      [] s.c \in {"NameH1", "NameH2"}   -> Fail(s, "Name")
      [] s.c \in {"ValueH1", "ValueH2"} -> Fail(s, "Value")
      [] s.c \in {"Quoted", "Escaped"}  -> Fail(s, "Value")
      [] s.c \in {"Name", "FName", "Equal"} -> To(s, <<E("item")>>)
      [] s.c \in {"Value", "FValue", "After"} -> To(s, <<E("item_v")>>)
      [] s.c \in {"Plain", "First", "Next", "FStart", "Dead"} -> To(s, <<>>)

InitDecode      == State(<<"decode">>, "Plain", 0)
InitQuery       == State(<<"query">>, "First", 0)
InitField(d, n) == State(<<"field", d, n>>, "FStart", 0)

Ctl == {"Plain", "Hex1", "Hex2", "First", "Next", "Name", "NameH1", "NameH2", "Value", "ValueH1",
        "ValueH2", "FStart", "FName", "Equal", "FValue", "Quoted", "Escaped", "After", "Dead"}
TypeOK(s) == s.c \in Ctl /\ s.k \in 0..15
=============================================================================

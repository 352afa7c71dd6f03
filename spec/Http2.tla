------------------------------- MODULE Http2 -------------------------------
(***************************************************************************)
(* Reference machine of the HTTP/2 push parser, one input byte per step.   *)
(*                                                                         *)
(* Same conventions as Http1: data tokens carry one delivered byte,        *)
(* register tokens ("#...") feed a number that a later event token         *)
(* reports, and an event token is one callback.  "x_end" says that the     *)
(* callback x was told that its payload is finished.                       *)
(*                                                                         *)
(* A state is [c, ty, fl, len, pad, k]:                                    *)
(*   c    control location                                                 *)
(*   ty   frame type, UNKNOWN for the types the protocol does not define     *)
(*   fl   1: PADDED is set and matters, 2: PRIORITY is set and matters     *)
(*   len  payload bytes left, padding included (BIG: more than MaxLen)     *)
(*   pad  padding bytes announced              (BIG: more than MaxLen)     *)
(*   k    1 if the frame turned out shorter than its fixed fields          *)
(*                                                                         *)
(* A BIG length does not say what is left after one more byte, so Step     *)
(* gets that as a parameter g: "max" says that exactly MaxLen bytes are    *)
(* left; "lt", "eq" and "gt" say that more are left, and how the rest      *)
(* compares with a BIG padding.  With other lengths g does not matter.     *)
(***************************************************************************)
EXTENDS Bytes

CONSTANT MaxLen          \* lengths above this are tracked only as BIG

BIG == MaxLen + 1

DATA == 0  HEADERS == 1  PRIORITY == 2  RST_STREAM == 3  SETTINGS == 4
PUSH_PROMISE == 5  PING == 6  GO_AWAY == 7  WINDOW_UPDATE == 8  CONTINUATION == 9
UNKNOWN == 10

Relations == {"lt", "eq", "gt", "max"}

DataTokens  == {"data", "fragment", "ping", "debug", "unsupported"}
RegTokens   == {"#len", "#type", "#flags", "#sid", "#excl", "#dep", "#weight",
                "#code", "#id", "#val"}
EventTokens == {"frame_format", "headers", "priority", "rst_stream", "settings",
                "push_promise", "go_away", "window_update",
                "data_end", "fragment_end", "ping_end", "debug_end", "unsupported_end"}

\* what an event reports: the numbers read since the last event
EventArgs == [frame_format |-> <<"#len", "#type", "#flags", "#sid">>,
              headers |-> <<"#excl", "#dep", "#weight">>,
              priority |-> <<"#excl", "#dep", "#weight">>,
              rst_stream |-> <<"#code">>, settings |-> <<"#id", "#val">>,
              push_promise |-> <<"#dep">>, go_away |-> <<"#dep", "#code">>,
              window_update |-> <<"#val">>]

RegBase(r) == 256

State(c, ty, fl, len, pad, k) ==
    [c |-> c, ty |-> ty, fl |-> fl, len |-> len, pad |-> pad, k |-> k]

Start == State("Len1", 0, 0, 0, 0, 0)
Dead  == State("Dead", 0, 0, 0, 0, 0)
\* frames whose length contradicts their type: see Irregular below
Sink  == State("Irregular", 0, 0, 0, 0, 0)

HeadCtl == {"Len1", "Len2", "Len3", "Type", "Flags", "Sid1", "Sid2", "Sid3", "Sid4"}
PayCtl  == {"Pad", "Dep1", "Dep2", "Dep3", "Dep4", "Weight", "Code1", "Code2", "Code3", "Code4",
            "Id1", "Id2", "Val1", "Val2", "Val3", "Val4", "Payload", "Padding"}
EndCtl  == {"Dead", "Irregular"}

To(s, ev)   == [nx |-> s, ev |-> ev, er |-> ""]
Fail(ev)    == [nx |-> Dead, ev |-> ev, er |-> "PayloadLength"]
E(name)     == <<name, 0>>
T(name, v)  == <<name, v>>

Acc(n, d) == IF n = BIG \/ n * 256 + d > MaxLen THEN BIG ELSE n * 256 + d
Sat(n)    == IF n > MaxLen THEN BIG ELSE n
Dec(n, g) == IF n = BIG THEN (IF g = "max" THEN MaxLen ELSE BIG) ELSE n - 1

Known(b) == IF b < UNKNOWN THEN b ELSE UNKNOWN
Padded(b)   == (b \div 8) % 2 = 1
Priority(b) == (b \div 32) % 2 = 1
\* the flags that change how a frame of this type is read
Relevant(ty, b) ==
    (IF ty \in {DATA, HEADERS, PUSH_PROMISE, UNKNOWN} /\ Padded(b) THEN 1 ELSE 0)
    + (IF ty = HEADERS /\ Priority(b) THEN 2 ELSE 0)

\* the callback that gets the payload of a frame
PayloadOf(ty) == CASE ty = DATA -> "data"
                   [] ty \in {HEADERS, PUSH_PROMISE, CONTINUATION} -> "fragment"
                   [] ty = PING -> "ping" [] ty = GO_AWAY -> "debug"
                   [] OTHER -> "unsupported"
EndOf(p) == CASE p = "data" -> "data_end" [] p = "fragment" -> "fragment_end"
              [] p = "ping" -> "ping_end" [] p = "debug" -> "debug_end"
              [] p = "unsupported" -> "unsupported_end"

\* The lengths of frames that consist of fixed fields only.
FixedLen == [x \in {PRIORITY, RST_STREAM, SETTINGS, WINDOW_UPDATE} |->
                IF x = PRIORITY THEN 5 ELSE IF x = SETTINGS THEN 6 ELSE 4]
\* A frame of fixed fields with another length: the parser goes by the fields
\* and not by the length, and what follows is not specified here.
Irregular(s) == s.ty \in DOMAIN FixedLen /\ s.len # FixedLen[s.ty]
                /\ ~(s.ty = SETTINGS /\ s.len = 0)

(***************************************************************************)
(* The payload proper starts: everything of it may already be there (it is *)
(* empty), or it may be longer than the frame.                             *)
(***************************************************************************)
Compare(s, g) == IF s.len = BIG /\ s.pad = BIG THEN g
                 ELSE IF s.len < s.pad THEN "lt" ELSE IF s.len = s.pad THEN "eq" ELSE "gt"

EndPayload(s, ev) == LET e == ev \o <<E(EndOf(PayloadOf(s.ty)))>> IN
    IF s.pad = 0 THEN To(Start, e)
    ELSE To([s EXCEPT !.c = "Padding", !.len = s.pad, !.pad = 0, !.fl = 0, !.ty = 0], e)

BeginPayload(s, ev, g) ==
    CASE Compare(s, g) = "lt" -> Fail(ev)
      [] Compare(s, g) = "eq" -> EndPayload(s, ev)
      [] Compare(s, g) = "gt" -> To([s EXCEPT !.c = "Payload", !.fl = 0], ev)

\* the first location after the frame header
AfterHeader(s, ev, g) ==
    IF Irregular(s) THEN To(Sink, ev)
    ELSE IF s.fl \in {1, 3} THEN To([s EXCEPT !.c = "Pad"], ev)
    ELSE CASE s.ty \in {DATA, PING, CONTINUATION, UNKNOWN} -> BeginPayload(s, ev, g)
           [] s.ty = HEADERS -> IF s.fl = 2 THEN To([s EXCEPT !.c = "Dep1"], ev)
                                ELSE BeginPayload(s, ev, g)
           [] s.ty \in {PRIORITY, PUSH_PROMISE, GO_AWAY} -> To([s EXCEPT !.c = "Dep1"], ev)
           [] s.ty = RST_STREAM    -> To([s EXCEPT !.c = "Code1"], ev)
           [] s.ty = WINDOW_UPDATE -> To([s EXCEPT !.c = "Val1"], ev)
           [] s.ty = SETTINGS      -> IF s.len = 0 THEN To(Start, ev)
                                      ELSE To([s EXCEPT !.c = "Id1"], ev)

HeadStep(s, b, g) ==
    CASE s.c = "Len1"  -> To([s EXCEPT !.c = "Len2", !.len = Acc(0, b)], <<T("#len", b)>>)
      [] s.c = "Len2"  -> To([s EXCEPT !.c = "Len3", !.len = Acc(s.len, b)], <<T("#len", b)>>)
      [] s.c = "Len3"  -> To([s EXCEPT !.c = "Type", !.len = Acc(s.len, b)], <<T("#len", b)>>)
      [] s.c = "Type"  -> To([s EXCEPT !.c = "Flags", !.ty = Known(b)], <<T("#type", b)>>)
      [] s.c = "Flags" -> To([s EXCEPT !.c = "Sid1", !.fl = Relevant(s.ty, b)], <<T("#flags", b)>>)
      [] s.c = "Sid1"  -> To([s EXCEPT !.c = "Sid2"], <<T("#sid", b % 128)>>)   \* reserved bit
      [] s.c = "Sid2"  -> To([s EXCEPT !.c = "Sid3"], <<T("#sid", b)>>)
      [] s.c = "Sid3"  -> To([s EXCEPT !.c = "Sid4"], <<T("#sid", b)>>)
      [] s.c = "Sid4"  -> AfterHeader(s, <<T("#sid", b), E("frame_format")>>, g)

(***************************************************************************)
(* Payload.  Every byte of it counts.                                      *)
(***************************************************************************)
Tick(s, g) == IF s.len = 0 THEN [s EXCEPT !.k = 1] ELSE [s EXCEPT !.len = Dec(s.len, g)]
Short(t) == t.k = 1

FieldStep(s, b, g) ==
    LET t == Tick(s, g)
        At(c, ev) == To([t EXCEPT !.c = c], ev)
    IN
    CASE s.c = "Pad" ->
            IF Short(t) THEN Fail(<<>>)
            ELSE LET u == [t EXCEPT !.pad = Sat(b), !.fl = s.fl - 1] IN
                 (CASE s.ty = HEADERS /\ s.fl = 3 -> To([u EXCEPT !.c = "Dep1"], <<>>)
                   [] s.ty = HEADERS /\ s.fl = 1 -> BeginPayload(u, <<E("headers")>>, g)
                   [] s.ty = PUSH_PROMISE        -> To([u EXCEPT !.c = "Dep1"], <<>>)
                   [] s.ty \in {DATA, UNKNOWN}     -> BeginPayload(u, <<>>, g))
      \* the first byte of a stream id carries the exclusive bit, or a reserved one
      [] s.c = "Dep1" -> At("Dep2", (IF s.ty \in {HEADERS, PRIORITY}
                                     THEN <<T("#excl", b \div 128)>> ELSE <<>>)
                                    \o <<T("#dep", b % 128)>>)
      [] s.c = "Dep2" -> At("Dep3", <<T("#dep", b)>>)
      [] s.c = "Dep3" -> At("Dep4", <<T("#dep", b)>>)
      [] s.c = "Dep4" -> IF s.ty \in {HEADERS, PRIORITY} THEN At("Weight", <<T("#dep", b)>>)
                         ELSE IF s.ty = GO_AWAY THEN At("Code1", <<T("#dep", b)>>)
                         ELSE IF Short(t) THEN Fail(<<>>)
                         ELSE BeginPayload(t, <<T("#dep", b), E("push_promise")>>, g)
      [] s.c = "Weight" -> IF s.ty = PRIORITY
                           THEN To(Start, <<T("#weight", b), E("priority")>>)
                           ELSE IF Short(t) THEN Fail(<<>>)
                           ELSE BeginPayload([t EXCEPT !.fl = 0],
                                             <<T("#weight", b), E("headers")>>, g)
      [] s.c = "Code1" -> At("Code2", <<T("#code", b)>>)
      [] s.c = "Code2" -> At("Code3", <<T("#code", b)>>)
      [] s.c = "Code3" -> At("Code4", <<T("#code", b)>>)
      [] s.c = "Code4" -> IF s.ty = RST_STREAM
                          THEN To(Start, <<T("#code", b), E("rst_stream")>>)
                          ELSE IF Short(t) THEN Fail(<<>>)
                          ELSE LET e == <<T("#code", b), E("go_away")>> IN
                               IF t.len = 0 THEN To(Start, e)
                               ELSE To([t EXCEPT !.c = "Payload"], e)
      [] s.c = "Id1"  -> At("Id2", <<T("#id", b)>>)
      [] s.c = "Id2"  -> At("Val1", <<T("#id", b)>>)
      [] s.c = "Val1" -> At("Val2", <<T("#val", IF s.ty = SETTINGS THEN b ELSE b % 128)>>)
      [] s.c = "Val2" -> At("Val3", <<T("#val", b)>>)
      [] s.c = "Val3" -> At("Val4", <<T("#val", b)>>)
      [] s.c = "Val4" -> To(Start, <<T("#val", b),
                                     E(IF s.ty = SETTINGS THEN "settings" ELSE "window_update")>>)
      [] s.c = "Payload" -> LET ev == <<T(PayloadOf(s.ty), b)>> IN
                            IF Compare(t, g) = "gt" THEN To(t, ev) ELSE EndPayload(t, ev)
      [] s.c = "Padding" -> IF t.len = 0 THEN To(Start, <<>>) ELSE To(t, <<>>)

Step(s, b, g) == IF s.c \in HeadCtl THEN HeadStep(s, b, g) ELSE FieldStep(s, b, g)

\* the values of g that can come up in a state
Possible(s) == IF s.c = "Payload" THEN (IF s.pad = BIG THEN {"eq", "gt"} ELSE {"eq", "gt", "max"})
               ELSE Relations

Group(s) == IF s.c \in HeadCtl THEN "header" ELSE IF s.c \in PayCtl THEN "payload" ELSE "end"

\* the part of a frame a parser waits in for its next byte, as state() tells it
Phase(s) ==
    LET c == s.c IN
    CASE c \in {"Len1", "Len2", "Len3"} -> "frame-length"
      [] c = "Type" -> "frame-type"
      [] c = "Flags" -> "frame-flags"
      [] c \in {"Sid1", "Sid2", "Sid3", "Sid4"} -> "frame-stream"
      [] c = "Pad" -> "pad-length"
      [] c \in {"Dep1", "Dep2", "Dep3", "Dep4"} -> "stream-id"
      [] c = "Weight" -> "weight"
      [] c \in {"Code1", "Code2", "Code3", "Code4"} -> "error-code"
      [] c \in {"Id1", "Id2"} -> "setting-id"
      [] c \in {"Val1", "Val2", "Val3", "Val4"} -> IF s.ty = SETTINGS THEN "setting-value" ELSE "increment"
      [] c = "Payload" -> PayloadOf(s.ty)
      [] c = "Padding" -> "padding"
      [] OTHER -> "end"

TypeOK(s) == /\ s.c \in HeadCtl \cup PayCtl \cup EndCtl
             /\ s.ty \in 0..UNKNOWN /\ s.fl \in 0..3 /\ s.len \in 0..BIG
             /\ s.pad \in 0..BIG /\ s.k \in 0..1
=============================================================================

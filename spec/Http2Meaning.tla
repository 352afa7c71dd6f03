---------------------------- MODULE Http2Meaning ----------------------------
(***************************************************************************)
(* What whole HTTP/2 frames mean, written as a layout and not as a         *)
(* machine: a frame header, then maybe the length of a padding, the fixed  *)
(* fields of its type, as many bytes of payload as the rest of the length  *)
(* without the padding says, and the padding.  Frames of every type, some  *)
(* flags and small lengths with every sequence of payload bytes over an    *)
(* alphabet are fed to the machine of Http2: after every byte it must have *)
(* reported what the layout says.                                          *)
(***************************************************************************)
EXTENDS Http2Push, SequencesExt, FiniteSets, FiniteSetsExt

CONSTANTS MaxPayload,    \* longest payload
          More           \* bytes behind it

P == INSTANCE Push WITH MStep <- H2Step, MSettle <- H2Settle, MFinal <- H2Final, MLook <- H2Look,
                        MPhase <- H2Phase, MPiecewise <- H2Piecewise, MData <- DataTokens,
                        MRegs <- RegTokens, MArgs <- H2Args

VARIABLES h, t, acc      \* the header, the bytes after it, the machine

\* a frame header and how to read the frame
Header(len, ty, fl, sid) == [len |-> len, ty |-> ty, fl |-> fl, sid |-> sid,
                             bytes |-> <<0, 0, len, ty, fl>> \o sid]
Bit(n, k) == (n \div k) % 2 = 1
Num(bytes) == P!StripZeros(bytes)
Join(a, b) == a \o <<-1>> \o b
Tok(name, args) == << <<name, args>> >>
D(name, bytes) == [i \in 1..Len(bytes) |-> <<name, <<bytes[i]>>>>]
Low31(bytes) == <<bytes[1] % 128>> \o Tail(bytes)

HasPad(f)  == f.ty \in {0, 1, 5, 10, 77} /\ Bit(f.fl, 8)
HasPrio(f) == f.ty = 1 /\ Bit(f.fl, 32)
\* bytes of the fixed fields
Fixed(f) == CASE f.ty = 1 -> (IF HasPrio(f) THEN 5 ELSE 0)
              [] f.ty = 2 -> 5 [] f.ty = 3 -> 4 [] f.ty = 4 -> (IF f.len = 0 THEN 0 ELSE 6) [] f.ty = 5 -> 4
              [] f.ty = 7 -> 8 [] f.ty = 8 -> 4 [] OTHER -> 0
\* what the fixed fields say
Prio(b) == Join(Join(Num(<<b[1] \div 128>>), Num(Low31(SubSeq(b, 1, 4)))), Num(<<b[5]>>))
Fields(f, b) ==
    CASE HasPrio(f) -> Tok("headers", Prio(b))
      [] f.ty = 1   -> IF HasPad(f) THEN Tok("headers", <<-1, -1>>) ELSE <<>>
      [] f.ty = 2   -> Tok("priority", Prio(b))
      [] f.ty = 3   -> Tok("rst_stream", Num(b))
      [] f.ty = 4   -> IF b = <<>> THEN <<>> ELSE Tok("settings", Join(Num(SubSeq(b, 1, 2)), Num(SubSeq(b, 3, 6))))
      [] f.ty = 5   -> Tok("push_promise", Num(Low31(b)))
      [] f.ty = 7   -> Tok("go_away", Join(Num(Low31(SubSeq(b, 1, 4))), Num(SubSeq(b, 5, 8))))
      [] f.ty = 8   -> Tok("window_update", Num(Low31(b)))
      [] OTHER      -> <<>>
\* where the rest of the payload goes, and whether it may be missing
Rest(f) == CASE f.ty = 0 -> "data" [] f.ty \in {1, 5, 9} -> "fragment" [] f.ty = 6 -> "ping" [] f.ty = 7 -> "debug"
             [] f.ty \in {2, 3, 4, 8} -> "" [] OTHER -> "unsupported"
Optional(f) == f.ty = 7

Mean(toks, v) == [toks |-> toks, v |-> v]
Meaning(f, b) ==
    LET format == Tok("frame_format", Join(Join(Join(Num(<<0, 0, f.len>>), Num(<<f.ty>>)), Num(<<f.fl>>)), Num(Low31(f.sid))))
        p == IF HasPad(f) THEN 1 ELSE 0
        pre == p + Fixed(f)
        pad == IF HasPad(f) THEN b[1] ELSE 0
        n == f.len - pre - pad                      \* bytes of payload
        k == Min({n, Len(b) - pre})
        fields == format \o Fields(f, SubSeq(b, p + 1, pre))
    IN IF HasPad(f) /\ f.len = 0 THEN Mean(format, IF b = <<>> THEN "" ELSE "PayloadLength")
       ELSE IF Len(b) < pre THEN Mean(format, "")
       ELSE IF f.len < pre THEN Mean(format, "PayloadLength")
       ELSE IF n < 0 THEN Mean(fields, "PayloadLength")
       ELSE IF Rest(f) = "" \/ (Optional(f) /\ n = 0) THEN Mean(fields, "")
       ELSE Mean(fields \o D(Rest(f), SubSeq(b, pre + 1, pre + k))
                        \o (IF k = n THEN Tok(EndOf(Rest(f)), <<>>) ELSE <<>>), "")

\* frames of fixed fields whose length is not that of their fields are left open by Http2
Regular(f) == f.ty \in {2, 3, 4, 8} => f.len = Fixed(f)
Frames == {f \in {Header(len, ty, fl, sid) : len \in 0..MaxPayload, ty \in 0..10 \cup {77}, fl \in {0, 8, 32, 44},
                                             sid \in {<<0, 0, 0, 0>>, <<129, 0, 2, 3>>}} : Regular(f)}
\* every padding, other bytes that show where they end up
Sigma(i) == IF i = 1 THEN 0..MaxPayload \cup {255} ELSE IF i < 4 THEN {0, 128 + i} ELSE {128 + i}
Room(f) == Max({f.len, Fixed(f) + 1}) + More

FeedAll(bytes) == FoldLeft(P!FeedByte, [q |-> H2State, toks |-> <<>>, er |-> "", k |-> 0, last |-> 0, at |-> H2State], bytes)
Init == /\ h \in Frames /\ t = <<>> /\ acc = FeedAll(h.bytes)
Next == /\ Len(t) < Room(h) /\ acc.er = ""
        /\ \E b \in Sigma(Len(t) + 1) : t' = Append(t, b) /\ acc' = P!FeedByte(acc, b)
        /\ UNCHANGED h
Spec == Init /\ [][Next]_<<h, t, acc>>

Same == LET m == Meaning(h, t) IN acc.toks = m.toks /\ acc.er = m.v
\* behind the payload, and only there, another frame starts
Between == acc.er = "" => (acc.q.m = Start) = (Len(t) = h.len /\ h.len >= Fixed(h) + (IF HasPad(h) THEN 1 ELSE 0))
View == <<h, t>>
=============================================================================

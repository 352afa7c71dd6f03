----------------------------- MODULE Http2Frames -----------------------------
(***************************************************************************)
(* HTTP/2 frames as their sender sees them, how they are written, and what *)
(* the receiver has to learn from them.  The padding, the reserved bits    *)
(* and the flags that a type does not know are in what is written; of      *)
(* these only the flags are reported.                                      *)
(***************************************************************************)
EXTENDS Draw

CONSTANT Nums      \* numbers that a receiver might treat specially

\* numbers as four bytes, the first below 128 where there is a reserved bit
Bytes4(x) == <<(x \div 16777216) % 128, (x \div 65536) % 256, (x \div 256) % 256, x % 256>>
Word(n, i) == IF Nums # <<>> /\ R(n, i + 15, 3) = 0 THEN Bytes4(Pick(n, i + 16, Nums))
              ELSE [j \in 1..4 |-> IF j = 1 THEN R(n, i, 128) ELSE Pick(n, i + j, <<0, 0, 1, 127, 128, 255, R(n, i + j + 9, 256)>>)]
Length(n, i) == IF R(n, i + 9, 4) = 0 THEN Size(n, i, 30)
                ELSE Pick(n, i, <<0, 0, 1, 2, 8, R(n, i + 1, 20), R(n, i + 2, 300), 255, 256, 700>>)
Text(n, i) == LET k == Length(n, i) IN [j \in 1..k |-> R(n, i + j, 256)]

Types == <<0, 0, 1, 1, 1, 2, 3, 4, 5, 5, 6, 7, 8, 9, 10, 77, 255>>
Frame(n) ==
    [type |-> Pick(n, 1, Types), sid |-> Word(n, 2), reserved |-> R(n, 20, 2),
     padded |-> R(n, 21, 2) = 0, pad |-> Pick(n, 22, <<0, 0, 1, 2, 7, 255, R(n, 23, 256), Size(n, 27, 20) % 256>>), prio |-> R(n, 24, 2) = 0,
     others |-> R(n, 25, 256),                                  \* other flags
     excl |-> R(n, 26, 2), dep |-> Word(n, 30), weight |-> R(n, 50, 256), code |-> Word(n, 60), first |-> R(n, 79, 2),
     id |-> <<R(n, 80, 2) * R(n, 81, 256), R(n, 82, 256)>>, empty |-> R(n, 83, 4) = 0, text |-> Text(n, 1000)]

HasPad(f) == f.padded /\ (f.type \in {0, 1, 5} \/ f.type > 9)
HasPrio(f) == f.prio /\ f.type = 1
Flags(f) == LET o == f.others
                bit(k) == (o \div k) % 2
                p == IF f.padded THEN 8 ELSE 0
                q == IF f.prio THEN 32 ELSE 0
            IN o - 8 * bit(8) - 32 * bit(32) + p + q
High(w, bit) == [w EXCEPT ![1] = @ + 128 * bit]
Dep(f) == High(f.dep, f.excl)
Padding(f) == [j \in 1..f.pad |-> (j * 37 + f.weight) % 256]
Payload(f) ==
    LET padded(t) == IF HasPad(f) THEN <<f.pad>> \o t \o Padding(f) ELSE t IN
    CASE f.type = 1 -> padded((IF HasPrio(f) THEN Append(Dep(f), f.weight) ELSE <<>>) \o f.text)
      [] f.type = 2 -> Append(Dep(f), f.weight)
      [] f.type = 3 -> High(f.code, f.first)
      [] f.type = 4 -> IF f.empty THEN <<>> ELSE f.id \o High(f.code, f.first)
      [] f.type = 5 -> padded(Dep(f) \o f.text)
      [] f.type = 7 -> Dep(f) \o High(f.code, f.first) \o f.text
      [] f.type = 8 -> High(f.code, f.first)
      [] f.type \in {6, 9} -> f.text
      [] OTHER -> padded(f.text)
Written(f) == LET k == Len(Payload(f)) IN
    <<0, k \div 256, k % 256, f.type, Flags(f)>> \o High(f.sid, f.reserved) \o Payload(f)

\* numbers without the zeros in front
RECURSIVE Digits(_)
Digits(w) == IF w # <<>> /\ Head(w) = 0 THEN Digits(Tail(w)) ELSE w
RECURSIVE Join(_)
Join(ws) == IF ws = <<>> THEN <<>> ELSE Digits(Head(ws)) \o (IF Len(ws) = 1 THEN <<>> ELSE <<-1>>) \o Join(Tail(ws))
Report(f) ==
    LET k == Len(Payload(f))
        told(name) == Data(name, f.text) \o Ev(name \o "_end")
    IN Item("frame_format", Join(<< <<k \div 256, k % 256>>, <<f.type>>, <<Flags(f)>>, f.sid>>))
       \o (CASE f.type = 0 -> told("data")
             [] f.type = 1 -> (IF HasPrio(f) THEN Item("headers", Join(<< <<f.excl>>, f.dep, <<f.weight>>>>))
                               ELSE IF HasPad(f) THEN Item("headers", <<-1, -1>>) ELSE <<>>)
                              \o told("fragment")
             [] f.type = 2 -> Item("priority", Join(<< <<f.excl>>, f.dep, <<f.weight>>>>))
             [] f.type = 3 -> Item("rst_stream", Digits(High(f.code, f.first)))
             [] f.type = 4 -> IF f.empty THEN <<>> ELSE Item("settings", Join(<<f.id, High(f.code, f.first)>>))
             [] f.type = 5 -> Item("push_promise", Digits(f.dep)) \o told("fragment")
             [] f.type = 6 -> told("ping")
             [] f.type = 7 -> Item("go_away", Join(<<f.dep, High(f.code, f.first)>>))
                              \o (IF f.text = <<>> THEN <<>> ELSE told("debug"))
             [] f.type = 8 -> Item("window_update", Digits(f.code))
             [] f.type = 9 -> told("fragment")
             [] OTHER -> told("unsupported"))

\* where the payload lies that may be of any length, as in Http1Messages; the length is that of the whole frame
Stretch(f) == IF f.text = <<>> \/ f.type \in {2, 3, 4, 8} THEN <<>>
              ELSE << <<0, 3, 256, 9 + Len(Payload(f)) - (IF HasPad(f) THEN f.pad ELSE 0) - Len(f.text), Len(f.text), 1,
                        Len(Report(f)) - 1>> >>
=============================================================================

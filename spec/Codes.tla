------------------------------- MODULE Codes -------------------------------
(***************************************************************************)
(* The numeric vocabulary of the library: HTTP/2 frame types, flags, error *)
(* codes and settings (RFC 7540, sections 6, 7, 11), the packing of a      *)
(* frame format, and the public byte classes.                              *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets

Unsupported == 255

FrameTypes == [data |-> 0, headers |-> 1, priority |-> 2, rst_stream |-> 3, settings |-> 4,
               push_promise |-> 5, ping |-> 6, go_away |-> 7, window_update |-> 8,
               continuation |-> 9]

ErrorCodes == [no_error |-> 0, protocol |-> 1, internal |-> 2, flow_control |-> 3,
               settings_timeout |-> 4, stream_closed |-> 5, frame_size |-> 6,
               refused_stream |-> 7, cancel |-> 8, compression |-> 9, connect |-> 10,
               enhance_your_calm |-> 11, inadequate_security |-> 12, http_1_1_required |-> 13]

Settings == [header_table_size |-> 1, enable_push |-> 2, max_concurrent_streams |-> 3,
             initial_window_size |-> 4, max_frame_size |-> 5, max_header_list_size |-> 6]

\* flags by bit value; two names may share a bit
FlagBits == [ack |-> 1, end_stream |-> 1, end_headers |-> 4, padded |-> 8, priority |-> 32]

\* what a number means in a table of codes
Meaning(table, n) == IF \E x \in DOMAIN table : table[x] = n
                     THEN CHOOSE x \in DOMAIN table : table[x] = n ELSE "unsupported"
\* the byte a meaning is written as
Encoded(table, n) == IF Meaning(table, n) = "unsupported" THEN Unsupported ELSE n

HasFlag(b, f) == (b \div FlagBits[f]) % 2 = 1
FlagsOf(b) == {f \in DOMAIN FlagBits : HasFlag(b, f)} \cup (IF b = 0 THEN {"empty"} ELSE {})

\* a frame format packs the length (24 bits) and the type (8 bits)
Pack(len, ty)  == len * 256 + ty
UnpackLen(p)   == p \div 256
UnpackType(p)  == p % 256

Classes(b) == (IF IsField(b) THEN {"header_field"} ELSE {})
              \cup (IF IsQuoted(b) THEN {"quoted_header_field"} ELSE {})
              \cup (IF IsToken(b) THEN {"token"} ELSE {})
=============================================================================

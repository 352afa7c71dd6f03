----------------------------- MODULE CodesTable -----------------------------
(***************************************************************************)
(* Every byte (and every small setting id) in turn: invariants of the code *)
(* tables, and one printed row per number.                                 *)
(***************************************************************************)
EXTENDS Codes, TLC, Json

CONSTANT Export

Words == INSTANCE Text
ASSUME Words!Faithful /\ Words!Shapes /\ Words!Acyclic
\* every code that Codes knows has a printed form, and the other way round
ASSUME /\ Cardinality(Words!Codes1) = Cardinality(DOMAIN ErrorCodes) + 1
       /\ Cardinality(Words!Frames1) = Cardinality(DOMAIN FrameTypes) + 1
       /\ Cardinality(Words!Settings1) = Cardinality(DOMAIN Settings) + 1

VARIABLE n

Init == n = 0
Next == n < 65535 /\ n' = n + 1
Spec == Init /\ [][Next]_n

Injective(f) == \A x, y \in DOMAIN f : f[x] = f[y] => x = y

Tables == /\ Injective(FrameTypes) /\ Injective(ErrorCodes) /\ Injective(Settings)
          /\ \A x \in DOMAIN FrameTypes : FrameTypes[x] # Unsupported
          /\ \A x \in DOMAIN ErrorCodes : ErrorCodes[x] # Unsupported
\* encoding is a retraction: what is written reads as the same thing
RoundTrip == n \in Byte => \A t \in {FrameTypes, ErrorCodes} :
    /\ Meaning(t, Encoded(t, n)) = Meaning(t, n)
    /\ Encoded(t, n) = n \/ Meaning(t, n) = "unsupported"
\* the classes are nested: a token is a field byte, a quoted byte is a field byte
Nested == n \in Byte =>
    /\ IsToken(n) => IsVisible(n)
    /\ IsToken(n) => IsQuoted(n)
    /\ IsQuoted(n) => IsField(n)
    /\ (IsField(n) /\ ~IsQuoted(n)) => n = BSLASH
    /\ IsField(n) => n \notin {0, CR, LF, 127}
    /\ IsToken(Lower(n)) = IsToken(n)
Packing == n \in Byte => \A len \in {0, 1, 255, 256, 65535, 16383} :
    UnpackLen(Pack(len, n)) = len /\ UnpackType(Pack(len, n)) = n

Row == [n |-> n, setting |-> Meaning(Settings, n)]
       @@ (IF n \in Byte
           THEN [frame |-> Meaning(FrameTypes, n), frame_byte |-> Encoded(FrameTypes, n),
                 error |-> Meaning(ErrorCodes, n), error_byte |-> Encoded(ErrorCodes, n),
                 flags |-> FlagsOf(n), classes |-> Classes(n)]
           ELSE [frame |-> "-"])
PrintRow == Export => PrintT("ROW" \o ToJson(Row))
ASSUME Export => PrintT("META" \o ToJson([frames |-> FrameTypes, errors |-> ErrorCodes,
                                          settings |-> Settings, bits |-> FlagBits,
                                          texts |-> {<<v.ty, v.variant, v.number, Words!Printed(v)>> : v \in Words!Values},
                                          before |-> Words!Pairs,
                                          unsupported |-> Unsupported]))
=============================================================================

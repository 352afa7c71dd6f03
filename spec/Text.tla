-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* What the values that the library hands out look like when they are      *)
(* printed, and the order in which State lists the parts of a message.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* the errors of the HTTP/1.x parser that carry a byte, and those that do not
ByteErrors == {"ChunkExtensionName", "ChunkExtensionValue", "ChunkLength", "CrlfSequence",
               "HeaderName", "HeaderValue", "Method", "Multipart", "MultipartBoundary",
               "Status", "StatusCode", "Url", "UrlEncodedName", "UrlEncodedValue", "Version"}
BareErrors == {"Dead", "ChunkLengthOverflow"}

Codes1 == {"NoError", "Protocol", "Internal", "FlowControl", "SettingsTimeout", "StreamClosed",
           "FrameSize", "RefusedStream", "Cancel", "Compression", "Connect", "EnhanceYourCalm",
           "InadequateSecurity", "Http11Required", "Unsupported"}
Frames1 == {"Data", "Headers", "Priority", "RstStream", "Settings", "PushPromise", "Ping",
            "GoAway", "WindowUpdate", "Continuation", "Unsupported"}
Settings1 == {"HeaderTableSize", "EnablePush", "MaxConcurrentStreams", "InitialWindowSize",
              "MaxFrameSize", "MaxHeaderListSize", "Unsupported"}

\* a printed value: the type, the variant, and the kind of the number it carries
Value(t, vs, n) == {[ty |-> t, variant |-> v, number |-> n] : v \in vs}
Values == Value("http1::ParserError", ByteErrors, "byte")
          \cup Value("http1::ParserError", BareErrors, "none")
          \cup Value("http2::ParserError", {"Dead", "PayloadLength"}, "none")
          \cup Value("DecodeError", {"Byte", "HexSequence"}, "byte")
          \cup Value("QueryError", {"Name", "Value"}, "byte")
          \cup Value("FieldError", {"Name", "Value"}, "byte")
          \cup Value("ErrorCode", Codes1, "none")
          \cup Value("FrameType", Frames1, "none")
          \cup Value("Setting", Settings1, "word")
          \cup Value("Success", {"Callback", "Eos", "Finished"}, "count")

\* the last part of the path is what is printed
Short(t) == IF t \in {"http1::ParserError", "http2::ParserError"} THEN "ParserError" ELSE t
Printed(v) == Short(v.ty) \o "::" \o v.variant

\* values that differ are printed differently
Faithful == \A v, w \in Values : v.ty = w.ty /\ v # w => Printed(v) # Printed(w)
\* ... and a name is never the beginning of another value of its type with a number behind it
Shapes == \A v, w \in Values : v.ty = w.ty /\ v.variant = w.variant => v = w

(***************************************************************************)
(* State lists the parts in the order in which a message has them.         *)
(***************************************************************************)
\* the runs of parts: the head of a request, of a response, a chunk, a part, a pair
Runs == << <<"None", "RequestMethod", "RequestUrl", "RequestVersion", "HeaderName", "HeaderValue">>,
           <<"None", "ResponseVersion", "ResponseStatusCode", "ResponseStatus", "HeaderName", "HeaderValue">>,
           <<"None", "ChunkLength", "ChunkExtensionName", "ChunkExtensionValue", "ChunkData">>,
           <<"None", "HeaderName", "HeaderValue", "MultipartData">>,
           <<"None", "UrlEncodedName", "UrlEncodedValue">> >>
Before == UNION {{<<r[i], r[j]>> : i, j \in 1..Len(r)} : r \in {Runs[k] : k \in 1..Len(Runs)}}
Ordered(p, q) == \E k \in 1..Len(Runs) : \E i, j \in 1..Len(Runs[k]) : i < j /\ Runs[k][i] = p /\ Runs[k][j] = q
Pairs == {pq \in Before : Ordered(pq[1], pq[2])}

\* there is an order of all parts that agrees with all runs
Acyclic == LET all == UNION {{Runs[k][i] : i \in 1..Len(Runs[k])} : k \in 1..Len(Runs)}
           IN \A p \in all : ~Ordered(p, p) /\ \A q \in all : ~(Ordered(p, q) /\ Ordered(q, p))

\* the part that a reported token belongs to; a version belongs to the line that it is in
PartOf(name, response) ==
    CASE name = "method" -> "RequestMethod"   [] name = "url" -> "RequestUrl"
      [] name = "version" -> IF response THEN "ResponseVersion" ELSE "RequestVersion"
      [] name = "status_code" -> "ResponseStatusCode" [] name = "status" -> "ResponseStatus"
      [] name = "hname" -> "HeaderName"       [] name = "hvalue" -> "HeaderValue"
      [] name = "chunk_length" -> "ChunkLength"
      [] name = "xname" -> "ChunkExtensionName" [] name = "xvalue" -> "ChunkExtensionValue"
      [] name = "chunk" -> "ChunkData"        [] name = "part" -> "MultipartData"
      [] name = "uname" -> "UrlEncodedName"   [] name = "uvalue" -> "UrlEncodedValue"
      [] OTHER -> "None"
\* events that begin a run
Opens == {"chunk_begin", "multipart_begin", "url_begin"}
=============================================================================

"""Writes properties.jsonl."""
import json
import os

P1, P2 = "src/http1/parser.rs", "src/http2/parser.rs"
HS = ["inputs", "histories"]
PS = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    PS.append({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
               "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                           "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                           "observe_at": list(observe), "hook_needed": None}})


RES = "the callbacks of HttpHandler and the result of resume()"

prop("C01", "HTTP/1.x parsing does not depend on how the input is cut into slices",
     "Feeding the bytes of a head or of a chunked, multipart or url-encoded body in any sequence of slices, empty ones included, gives the handler the same events in the same order, the same bytes in total for every value, and the same final outcome as feeding them in one piece.",
     HS, "for every input, every message type and every partition of the input into slices",
     "The tests feed a few inputs whole or byte by byte; the partitions of one message of n bytes are 2^(n-1), and every state has its own code for the end of a slice.",
     [P1, "src/fsm.rs", "src/collect.rs"],
     [("exit_eos! stores the state function and reports what was collected", "src/fsm.rs"), ("collect macros mark and deliver pieces of a value", "src/collect.rs"),
      ("detect1..5 hold back the bytes of HTTP/ that may become a method", P1), ("multipart_boundary compares across slices", P1)],
     [("state_function", "where the next slice continues", P1), ("bit_data", "numbers read so far and the position in a boundary", P1)], [RES])

prop("C02", "A callback can interrupt HTTP/1.x parsing anywhere without losing data",
     "When a callback returns false, resume() returns at once with the number of bytes consumed so far, no other callback is made, and continuing with the rest of the input delivers exactly what an uninterrupted parse would still have delivered. Nothing is delivered twice and nothing is dropped, whichever callbacks interrupt.",
     ["inputs", "schedules", "histories"], "for every input, slicing and every choice of the callbacks that return false",
     "The tests interrupt single callbacks at the end of hand-made inputs; the position of a byte relative to the callback that interrupts decides, and there are 2^k schedules for k callbacks.",
     [P1, "src/fsm.rs", "src/collect.rs"],
     [("exit_callback! and callback_transition!", "src/fsm.rs"), ("collected bytes are delivered with and without the current byte", "src/collect.rs")],
     [("state_function", "set before a callback is made", P1)], [RES])

prop("C03", "HTTP/1.x results account for every byte and every state",
     "Eos(n) is returned only with n the length of the slice, Callback(n) and Finished(n) with n the bytes actually used, and byte_count() grows by exactly the bytes consumed, the offending byte included if there is an error. A finished message leaves the bytes that follow it untouched, and state() says finished or dead exactly when the parse is.",
     HS, "for every input, slicing and interruption, at every call",
     "The tests compare counts for complete inputs; that sums stay exact over any history of slices and interruptions is about every prefix of every input.",
     [P1, "src/fsm.rs"],
     [("byte_count is updated on every exit from resume()", P1), ("Success values are made by the exit macros", "src/fsm.rs")],
     [("byte_count", "bytes consumed so far", P1)], ["resume(), byte_count(), state()"])

prop("C04", "Request and status lines are reported exactly as they were sent",
     "For every head, method and url, or version, status code and reason are delivered byte for byte, the version and status code have the numeric value of their digits, and a line that is no request or status line is an error at its first wrong byte. Whether a message is a request or a response is decided by its first bytes alone, also for methods that begin like HTTP/.",
     ["inputs"], "for every sequence of bytes as the first line of a message",
     "A test fixes one line; the language has versions of 1 to 3 digits, methods that share a prefix with HTTP/, and 256 bytes in each of 38 states.",
     [P1, "src/byte.rs"],
     [("strip_detect and detect1..5", P1), ("request_* and response_* states", P1), ("status code and version digits are accumulated in bit_data", P1)], (), [RES])

prop("C05", "Header fields are reported complete, normalised and in order",
     "Every header field of a head, of a multipart part and of a chunked trailer is delivered in order, names in lower case, values with surrounding quoting intact and leading blanks removed, folded lines continued, and the end of the headers is reported exactly once. Well-known names that the parser recognises as a whole are delivered like any other name.",
     ["inputs"], "for every sequence of header bytes, cut anywhere",
     "The fast path for well-known names depends on how many bytes are left in the slice; the tests see a few names in complete slices.",
     [P1, "src/byte.rs", "src/collect.rs"],
     [("first_header_name recognises well-known names", P1), ("upper_header_name and lower_header_name convert bytes one at a time", P1), ("header_quoted_value and header_escaped_value", P1)], (), [RES])

prop("C06", "Chunked bodies deliver exactly the bytes of the chunks",
     "For a chunked body the reported chunk lengths are the values of their hex digits, the delivered data is exactly the bytes the lengths announce, extensions are delivered with lower-case names and unquoted values, trailers as header fields, and the body ends exactly after its last chunk and trailer. Anything else is an error at its first wrong byte.",
     HS, "for every chunked body, every chunk length and every cut",
     "Lengths have 1 to 8 digits and data is counted across slices; the tests use lengths below 256 in two or three slices.",
     [P1],
     [("chunk_length1..8 accumulate hex digits", P1), ("chunk_data counts across slices", P1), ("chunk extension states", P1), ("the last chunk turns into trailers", P1)],
     [("bit_data", "length that is left", P1)], [RES])

prop("C07", "Multipart bodies are divided exactly at their delimiters",
     "For a multipart body and any boundary, the data of every part is exactly the bytes between its headers and the next delimiter, including bytes that look like the beginning of a delimiter, or exactly as many bytes as the handler announced. The body ends exactly at the closing delimiter.",
     HS, "for every boundary, every sequence of part bytes, every cut, and every answer of the handler about part lengths",
     "The partial matches depend on how boundary and data overlap and where slices end; the tests use one boundary and data that never resembles it.",
     [P1, "src/http1/http_handler.rs"],
     [("multipart_hyphen1/2 and multipart_boundary deliver a failed match as data", P1), ("multipart_data_by_length", P1), ("multipart_detect_data asks content_length()", P1)],
     [("boundary", "the delimiter without its hyphens", P1), ("bit_data", "how much of the boundary matched, or the length left", P1)], [RES])

prop("C08", "Url-encoded bodies are decoded exactly and end at their length",
     "For a url-encoded body of a given length, every pair is announced, names and values are delivered with plus signs and hex sequences decoded and every other byte unchanged, and the body ends exactly after the given number of bytes, never earlier or later. An invalid byte or hex sequence is an error that names it.",
     HS, "for every body, every length and every cut, also inside a hex sequence",
     "The end of the body can coincide with any state and any slice boundary; the tests use whole pairs.",
     [P1],
     [("url_encoded_* states", P1), ("length is compared with the bytes consumed", P1)],
     [("length", "length of the body", P1)], [RES])

prop("C09", "HTTP/1.x errors are precise and final",
     "An input is rejected if and only if it is not of the accepted language, at its first byte that cannot continue any accepted message, with an error that names the part of the message and that byte. After an error no callback is ever made again and every further call reports that the parser is dead, until it is initialised again.",
     HS, "for every input and every continuation after an error",
     "The tests give each state a handful of wrong bytes; the statement is about 256 bytes in every state and about every continuation.",
     [P1, "src/http1/parser_error.rs", "src/fsm.rs"],
     [("exit_error! and the dead state", "src/fsm.rs"), ("byte classes and the loops over visible, digit and hex bytes", "src/byte.rs")],
     [("state", "Dead after an error", P1)], ["ParserError and its byte", "resume() after an error"])

prop("C10", "No input makes any parser or iterator panic, hang or read out of bounds",
     "For every byte sequence, slicing and interruption, the HTTP/1.x and HTTP/2 parsers, decode(), and the query and field iterators return without panicking, without reading outside the slice they were given, and after work bounded by the input; the iterators yield at most one item per byte and then end.",
     HS, "for every byte sequence, also malformed, truncated and contradictory ones",
     "The code reads through unchecked pointers and subtracts lengths it was sent; tests with ordinary inputs do not reach the bytes before and after a slice.",
     [P1, P2, "src/util/decode.rs", "src/util/query.rs", "src/util/field.rs", "src/byte.rs"],
     [("byte-slice macros with unchecked indexes", P1), ("payload lengths are decremented by field sizes", P2), ("256 entries in each byte class table", "src/byte.rs")], (), ["termination of every public call"])

prop("C11", "A parser that is initialised again behaves like a new one",
     "Whatever a parser has been through - a finished or unfinished message of any type, an interruption or an error - initialising it for a message makes it report exactly what a new parser initialised the same way would report. Only the running byte count carries over, for HTTP/1.x.",
     ["histories", "inputs"], "for every history of messages, cut off anywhere, of every type, and every next message",
     "The tests reuse a parser once after complete messages; leftovers in shared fields depend on where exactly the previous message stopped.",
     [P1, P2],
     [("init_head, init_chunked, init_multipart, init_url_encoded and reset", P1), ("reset", P2)],
     [("bit_data", "packs unrelated numbers of different states", P1), ("length", "shared by body types", P1)], [RES])

prop("C12", "HTTP/2 frames are decoded exactly",
     "Every HTTP/2 frame header is reported with the length, type, flags and stream id it carries, followed by exactly the payload of its type: padding removed, stream dependency, weight, error code, settings entries, increments and promised stream ids with their numeric values and reserved bits removed, and payload bytes unchanged. Payload and its end are reported for empty payloads too.",
     ["inputs"], "for every frame header, flag combination, padding and payload",
     "There are ten frame types, 256 flags, padding up to 255 and lengths up to 2^24; the tests have one or two frames of each type.",
     [P2, "src/http2/flags.rs", "src/http2/frame_type.rs"],
     [("frame_format_end dispatches on type and flags", P2), ("macros that read u24 and u32 at once or byte by byte", P2)],
     [("bit_data32a, bit_data32b, bit_data16a", "numbers read so far, packed", P2)], ["the callbacks of the HTTP/2 HttpHandler"])

prop("C13", "HTTP/2 frames never leak into each other",
     "In a sequence of frames every frame takes exactly the 9 bytes of its header and the bytes its length announces, whatever its type, flags and padding, also if it is empty, unknown or all padding; the next frame is read from the byte after it. A payload too short for its own fields or padding is an error that stops the parser.",
     HS, "for every sequence of frames of every type and length",
     "The tests parse single frames and do not look at what follows them.",
     [P2],
     [("payload length is decremented by everything that is read", P2), ("padding is skipped before the next frame", P2)],
     [("bit_data32a", "payload bytes that are left, and padding", P2)], ["on_frame_format of the following frame", "ParserError::PayloadLength"])

prop("C14", "HTTP/2 parsing does not depend on slices or interruptions and counts every byte",
     "Any slicing of a sequence of HTTP/2 frames and any choice of callbacks that return false gives the handler the same events, numbers and payload bytes as one uninterrupted call. Eos, Callback and byte_count() account for every byte, and after an error no callback is made and every call reports it.",
     ["inputs", "schedules", "histories"], "for every input, partition and interruption schedule",
     "Each multi-byte number has a fast path and a path per byte; the tests cut at some of these places and check one callback at a time.",
     [P2, "src/fsm.rs", "src/collect.rs"],
     [("fast paths when enough bytes are available", P2), ("collect and data macros deliver pieces of a payload with an end flag", P2), ("reset_bit_data after each frame", P2)],
     [("byte_count", "bytes consumed", P2)], ["the callbacks of the HTTP/2 HttpHandler", "resume(), byte_count(), state()"])

prop("C15", "decode() inverts url encoding and rejects everything else",
     "decode() returns the input with plus signs turned into spaces, each hex sequence turned into its byte and every other visible byte unchanged, as valid text. A byte that is not visible 7-bit ASCII, or an incomplete or invalid hex sequence, is an error that carries the offending byte.",
     ["inputs"], "for every byte sequence",
     "The tests decode a dozen strings; runs of plain bytes, plus signs and escapes combine freely and meet the end of the input in every state.",
     ["src/util/decode.rs", "src/util/mod.rs"],
     [("collect_visible loop and hex_to_byte macros", "src/util/decode.rs")], (), ["the result of decode()"])

prop("C16", "QueryIterator yields every pair of a query string, decoded",
     "The iterator yields the pairs of a query string in order, separated by ampersand or semicolon, with names and values decoded, a missing value told from an empty one, and then ends for good. An invalid byte or hex sequence is reported once through the error callback that is set by then, with that byte, and ends the iteration after the pairs before it.",
     ["inputs"], "for every byte sequence as a query string, with and without an error callback",
     "The tests use well-formed queries of up to three pairs.",
     ["src/util/query.rs"],
     [("Iterator::next and its collect macros", "src/util/query.rs"), ("context.stream_index at the end marks an ended iteration", "src/util/query.rs")], (), ["next() and on_error()"])

prop("C17", "FieldIterator yields every parameter of a field value",
     "The iterator yields the parameters of a header field value in order for any delimiter, with names in lower case if asked, quoted values without their quotes and escapes, values of any field bytes, and blanks around them skipped, and then ends for good. An invalid byte or an unfinished quoted value is reported once through the error callback that is set by then and ends the iteration after the parameters before it.",
     ["inputs", "configurations"], "for every byte sequence, every delimiter byte, and both settings of normalisation",
     "The tests use two delimiters and well-formed values.",
     ["src/util/field.rs", "src/byte.rs"],
     [("Iterator::next with quoted and unquoted values", "src/util/field.rs"), ("normalisation flushes at every upper-case byte", "src/util/field.rs")], (), ["next() and on_error()"])

prop("C18", "The url decoders of the library agree with each other",
     "The same bytes mean the same pairs as a url-encoded body, in whatever slices, and as a query string, with no value and an empty value identified, and bytes without separators mean the same to decode(). They also reject the same inputs at the same byte, except that a query may not begin with a separator and that a body may end inside a hex sequence.",
     ["inputs"], "for every byte sequence and every slicing of the body",
     "No test compares two components.",
     [P1, "src/util/query.rs", "src/util/decode.rs"],
     [("three independent implementations of the same decoding", "src/util/decode.rs")], (), ["url-encoded callbacks, QueryIterator, decode()"])

prop("C19", "HTTP/2 codes, types, settings and flags map faithfully in both directions",
     "Converting an error code, frame type or setting to a number and back is the identity, for every number a wire field can hold, unknown values included; the values are those of the HTTP/2 specification; and each flag test looks at exactly the bits of that flag.",
     ["inputs"], "for every 8-bit code and flag byte, and every 16-bit setting id",
     "The tests touch the known values; the statement is about all numbers.",
     ["src/http2/error_code.rs", "src/http2/frame_type.rs", "src/http2/setting.rs", "src/http2/flags.rs", "src/http2/frame_format.rs"],
     [("from and as functions of the enumerations", "src/http2/error_code.rs"), ("flag constants", "src/http2/flags.rs")], (), ["the public conversions and predicates"])

prop("C20", "Byte classes are exactly those of the HTTP grammar",
     "Each public byte class predicate accepts exactly the bytes of its class, for all 256 bytes, without panicking.",
     ["inputs"], "for every byte and every class",
     "The tests sample bytes of each class; a wrong table entry affects one byte.",
     ["src/byte.rs"], [("lookup tables", "src/byte.rs")], (), ["the predicates"])

prop("C21", "state() names the part of a message that the next byte belongs to",
     "Whenever resume() has consumed a whole slice, state() of either parser names the part of the message or frame that the next byte will be read as: method, url, version, status, header name or value, chunk length, extension or data, boundary or part data, url-encoded name or value, frame header field, payload field or padding; it says finished or dead exactly when nothing more will be read. This depends only on the bytes of the message so far, not on how they were sliced or interrupted.",
     HS, "for every input and every point at which a slice can end",
     "The tests look at state() at a few points of hand-made inputs; a stale state is seen only if a slice ends in just that place.",
     [P1, P2, "src/http1/parser_state.rs", "src/http2/parser_state.rs", "src/fsm.rs"],
     [("set_state! and transition! store state and function together", "src/fsm.rs"), ("exit macros store the state", "src/fsm.rs")],
     [("state", "what state() returns", P1)], ["state()"])

prop("C22", "Callbacks that a handler leaves out do not affect parsing",
     "A handler that implements any subset of the callbacks of either HttpHandler gets exactly the events of those callbacks that a complete handler would get, and every result is the one it would be if the others had returned true. A multipart handler without content_length() gets the data of every part up to its delimiter.",
     ["inputs", "configurations"], "for every input, every slicing and every subset of the callbacks",
     "The handlers of the tests implement whatever they look at and ignore everything else; there are 2^23 and 2^13 subsets.",
     ["src/http1/http_handler.rs", "src/http2/http_handler.rs", P1, P2],
     [("default bodies of the trait methods", "src/http1/http_handler.rs"), ("default bodies of the trait methods", "src/http2/http_handler.rs")], (), ["handlers with default callbacks", RES])

prop("C23", "Printed errors, codes and results tell exactly what the value is",
     "Debug and Display of every error of the parsers, of decode() and of the iterators, and of every error code, frame type, setting, flags and frame format give the same text; it names the type and the variant and holds every number the value carries in decimal, so that values that differ are printed differently. The text of flags says of every named flag whether it is set. Debug of a result of resume() names its variant and count, Display is the count.",
     ["inputs"], "for every value of these types: every variant, byte, flag byte, and numbers over all of their range",
     "The tests print nothing; a variant printed as its neighbour compiles and misleads whoever reads a log.",
     ["src/http1/parser_error.rs", "src/http2/parser_error.rs", "src/http2/error_code.rs", "src/http2/frame_type.rs", "src/http2/setting.rs",
      "src/http2/flags.rs", "src/http2/frame_format.rs", "src/fsm.rs", "src/util/decode.rs", "src/util/query.rs", "src/util/field.rs"],
     [("fmt of Debug and Display, one arm per variant", "src/http1/parser_error.rs"), ("format() of the HTTP/2 types", "src/http2/flags.rs")], (), ["{:?} and {}"])

prop("C24", "State lists the parts of a message in the order in which they are parsed",
     "As numbers, the values of http1::State are in the order in which their parts are first reported within the head of a request or of a response, within a chunk (length, extension name, extension value, data), within a part of a multipart body and within a url-encoded pair; None comes before all others. Different parts have different numbers.",
     ["inputs"], "for every pair of parts that any message reports one after the other",
     "No test compares states; the order is a promise of the documentation that nothing else enforces.",
     ["src/http1/parser_state.rs", P1], [("enumeration State, in parsing order", "src/http1/parser_state.rs")], (), ["State as u8, and the order of callbacks"])

prop("C25", "Parsers and iterators do not interfere with each other",
     "A parser or iterator behaves as if it were the only one: what a call delivers, returns and counts does not depend on other parsers and iterators of the program, whether they are used between its calls or inside its callbacks, nor on the memory that it lies in or the thread that it runs on.",
     ["inputs", "schedules", "histories"], "for every interleaving and nesting of calls of any parsers and iterators, and every input of each",
     "The tests use one parser at a time; state that outlives a call anywhere but in the parser (a static, a thread-local, a pointer into the parser) is invisible to them.",
     ["src/http1/parser.rs", "src/http2/parser.rs", "src/util/decode.rs", "src/util/query.rs", "src/util/field.rs"],
     [("struct Parser, which holds all state", "src/http1/parser.rs"), ("struct Parser, which holds all state", "src/http2/parser.rs"), ("struct QueryIterator and FieldIterator", "src/util/query.rs")], (),
     ["resume() of several parsers by turns and inside of callbacks", RES])

prop("C26", "Zero copy: parsing needs no memory of its own, values are parts of the slice",
     "A parser holds and allocates no memory that grows with the input: at most a small constant and a few times the boundary, whatever it is fed. Bytes of a URL, status, header value, extension value, chunk, part, url-encoded value or HTTP/2 payload are handed to the callback from where they lie in the slice, unless they stand for another byte or were held back because they might have begun a delimiter. What decode() and the iterators allocate is in proportion to their input.",
     ["inputs"], "for every input of any size, every slicing and every interruption",
     "Copies and buffers change no result, so no test notices them; they break the promises of zero copy and of protection against denial of service.",
     [P1, P2, "src/http1/parser.rs", "src/http2/parser.rs", "src/util/decode.rs", "src/util/query.rs", "src/util/field.rs", "README.md"],
     [("collected spans of the slice", "src/collect.rs"), ("struct Parser", "src/http1/parser.rs"), ("struct Parser", "src/http2/parser.rs")], (),
     ["addresses of the slices given to callbacks", "allocations during calls"])

prop("C27", "Messages on a connection come back as they were sent, one after another",
     "A receiver that reads heads, takes the kind and the length of each body from the fields with the helpers of the library, and starts anew after each message, learns from a connection exactly what the senders of its messages meant: line, fields, decoded target, chunks with their extensions and trailer, parts with their names, pairs, or raw body, in this order, and it stands at the first byte of the next message after each. For HTTP/2 the same holds for every frame: type, flags, stream, padding taken off, and content. How a message is written (case, blanks, folding, quoting, hex sequences, chunk sizes, padding), how the connection is sliced, and where callbacks interrupt, make no difference.",
     ["inputs", "histories"], "for every sequence of well-formed messages on one connection, every slicing and every interruption",
     "The tests feed one element of one message to a new parser; that parsers, iterators and decode() fit together over a whole connection, and that nothing of one message is left for the next, is nowhere tested.",
     [P1, P2, "src/util/decode.rs", "src/util/query.rs", "src/util/field.rs", "README.md"],
     [("Parser::resume and init_*", P1), ("Parser::resume", P2), ("struct FieldIterator", "src/util/field.rs"), ("struct QueryIterator", "src/util/query.rs"), ("decode", "src/util/decode.rs")], (),
     ["a receiver made of Parser, FieldIterator, QueryIterator and decode()", RES])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")

TECH = {"C19": "TLA+ model of the code tables, all numbers enumerated by TLC and compared with the library",
        "C20": "TLA+ definition of the byte classes, enumerated by TLC and compared with the library",
        "C18": "TLA+ product model checked by TLC, replayed on the three real decoders"}
TECH["C23"] = "TLA+ model of printed values, all variants enumerated by TLC and compared with the library"
TECH["C24"] = "TLA+ byte machine with a history of reported parts: TLC checks the order, which is compared with the library"
TECH["C25"] = "TLA+ model of several parsers with nested calls, checked by TLC; parsers used by turns and inside of callbacks compared with it"
TECH["C26"] = "TLA+ byte machine with what it holds back: TLC checks the bound on every transition; addresses and allocations of the parsers compared with it"
TECH["C27"] = "TLA+ model of senders and a receiver made of the specified machines: TLC checks that messages are understood; the same connections are read by a receiver made of the library"
TECH["C22"] = "TLA+ byte machine: TLC state graph replayed on the parsers with handlers of every kind"
for i in (15, 16, 17):
    TECH["C%d" % i] = "TLA+ byte machine: TLC state graph replayed on the library, recorded results validated by TLC"
NOTE = ("TLC explores the reference machine completely within its constants and checks its invariants; every byte in every reachable state, and "
        "random paths through the state graph under many slicings and interruptions, are replayed into the real code and compared call by call; calls recorded "
        "from the real code are validated by TLC against the same specification. The replayed paths and histories are a sample; trusted: TLC, the table "
        "interpreter of the harness (cross-checked by the trace validation).")
EX = {"C23": "Complete enumeration of variants, bytes and flag bytes; 32-bit and usize numbers around every power of two; trusted: TLC and the comparison in the harness.",
      "C24": "The order is checked in every reachable state of the byte machine, which the other checks bind to the code; complete comparison with the enumeration.",
      "C19": "Complete enumeration of all numbers; trusted: TLC and the comparison in the harness.",
      "C20": "Complete enumeration of all bytes; trusted: TLC and the comparison in the harness."}
M = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "technique": TECH.get(p["id"], "TLA+ byte machine and push-API model: TLC state graph replayed on the parser, recorded traces validated by TLC"),
                 "level": "model_checking", "level_note": EX.get(p["id"], NOTE)} for p in PS],
     "not_applicable": []}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")

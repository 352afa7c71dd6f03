#!/usr/bin/env python3
"""Shows that the models can fail: weakened rules of Push must violate PushModel.

  vacuity.py [MODEL..]  (not used by any check)
"""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
# file, old, new, model that has to fail
CASES = [
    ("Push.tla", "(c.in # <<>> => m.owed = <<>>)", "TRUE", "Http1Calls"),
    ("Push.tla", "    /\\ m.ok /\\ m.ahead = <<>> /\\ (c.in", "    /\\ m.ahead = <<>> /\\ (c.in", "Http1Calls"),
    ("Push.tla", "    /\\ a.er = \"\" /\\ ~MFinal(a.q)\n", "    /\\ ~MFinal(a.q)\n", "Http1Calls"),
    ("Push.tla", "    /\\ a.er = \"\" /\\ ~MFinal(a.q)\n", "    /\\ a.er = \"\"\n", "Http1Calls"),
    ("Push.tla", "    /\\ a.k = c.n\n    /\\ m.ok\n", "    /\\ a.k = c.n\n", "Http1Calls"),
    ("Push.tla", "    /\\ m.ok /\\ m.owed = <<>> /\\ m.ahead = <<>>\n", "    /\\ m.ok /\\ m.ahead = <<>>\n", "Http1Calls"),
    ("Push.tla", "       /\\ m.ok /\\ m.ahead = <<>> /\\ OneField(m.owed)\n", "       /\\ m.ok /\\ m.ahead = <<>>\n", "Http1Calls"),
    ("Push.tla", "b.er # \"\" /\\ ", "", "Http2Calls"),
    ("Push.tla", "/\\ c.ret = \"finished\" /\\ c.n = 0 /\\ c.d = <<>>", "/\\ c.ret \\in {\"finished\", \"eos\"} /\\ c.n = 0 /\\ c.d = <<>>", "Http1Calls"),
    # owed tokens dropped when a call is interrupted
    ("Push.tla", "IN [q |-> a.q, owed |-> m.owed,", "IN [q |-> a.q, owed |-> <<>>,", "Http1Calls"),
    ("Push.tla", "IN [q |-> a.q, owed |-> m.owed, ahead |-> m.ahead,", "IN [q |-> a.q, owed |-> m.owed, ahead |-> <<>>,", "Http1Calls"),
    ("Push.tla", "IN [q |-> a.q, owed |-> m.owed,", "IN [q |-> a.q, owed |-> <<>>,", "Http2Calls"),
    ("Push.tla", "er |-> a.er, count |-> c.count", "er |-> \"\", count |-> c.count", "Http2Calls"),
    # the byte machines against what whole inputs mean
    ("Http1.tla", "IF IsSpaceOrEol(b) THEN Go(s, \"Start\")", "IF IsBlank(b) THEN Go(s, \"Start\")", "Http1Meaning"),
    ("Http1.tla", "Emit(s, \"Url1\", Ts(\"method\", held))", "Emit(s, \"Url1\", <<>>)", "Http1Meaning"),
    ("Http1.tla", "IF b = DOT THEN Go(s, p \\o \"Min1\") ELSE Fail(\"Version\", <<>>)\n      [] c = p \\o \"Maj3\"",
     "IF b = DOT THEN Go(s, p \\o \"Min2\") ELSE Fail(\"Version\", <<>>)\n      [] c = p \\o \"Maj3\"", "Http1Meaning"),
    ("Http1.tla", "[] c = \"Escaped\" -> IF IsEscaped(b)", "[] c = \"Escaped\" -> IF IsQuoted(b)", "Http1Meaning"),
    ("Http1.tla", "ELSE IF IsBlank(b) THEN Go(s, \"Value\")   \\* folded line", "ELSE IF IsBlank(b) THEN Go(s, \"Strip\")", "Http1Meaning"),
    ("Http1.tla", "IF s.len = 0 THEN Emit(s, \"HdrLf\", <<E(\"chunk_length\")>>)", "IF s.len = 0 THEN Emit(s, \"LenLf\", <<E(\"chunk_length\"), E(\"exts_finished\")>>)", "Http1Meaning"),
    ("Http1.tla", "!.c = IF s.len = 1 THEN \"ChunkCr\"", "!.c = IF s.len = 0 THEN \"ChunkCr\"", "Http1Meaning"),
    ("Http1.tla", "ELSE IF b = QUOTE THEN Go(s, \"ExtVal\")", "ELSE IF b = QUOTE THEN Go(s, \"ExtValStrip\")", "Http1Meaning"),
    ("Http1.tla", "IF b = CR THEN Emit(t, \"ScanLf\", Ts(\"part\", held))", "IF FALSE THEN Emit(t, \"ScanLf\", Ts(\"part\", held))", "Http1Meaning"),
    ("Http1.tla", "<<CR, LF, HYPHEN, HYPHEN>> \\o SubSeq(Bnd(s), 1, s.k)", "<<CR, LF, HYPHEN, HYPHEN>> \\o SubSeq(Bnd(s), 1, 0)", "Http1Meaning"),
    ("Http1.tla", "IF n = -1 THEN [s EXCEPT !.c = \"Scan\", !.len = 0]", "IF n <= 0 THEN [s EXCEPT !.c = \"Scan\", !.len = 0]", "Http1Meaning"),
    ("Http1.tla", "ELSE IF b = EQ THEN Go(s, \"UValue\")", "ELSE IF b = EQ THEN Go(s, \"UFirst\")", "Http1Meaning"),
    ("Http1.tla", "ELSE IF s.len = 1 THEN To(Done, r.ev", "ELSE IF s.len = 1 /\\ s.c # \"UValueH1\" THEN To(Done, r.ev", "Http1Meaning"),
    ("Http2.tla", "IF s.pad = 0 THEN To(Start, e)", "IF s.pad <= 1 THEN To(Start, e)", "Http2Meaning"),
    ("Http2.tla", "[] s.ty = HEADERS -> IF s.fl = 2", "[] s.ty = HEADERS -> IF s.fl = 4", "Http2Meaning"),
    ("Http2.tla", "IF s.ty = SETTINGS THEN b ELSE b % 128", "b % 128", "Http2Meaning"),
    ("Http2.tla", "ELSE BeginPayload(t, <<T(\"#dep\", b), E(\"push_promise\")>>, g)", "ELSE BeginPayload([t EXCEPT !.pad = 0], <<T(\"#dep\", b), E(\"push_promise\")>>, g)", "Http2Meaning"),
    ("Http2.tla", "IF t.len = 0 THEN To(Start, e)", "IF FALSE THEN To(Start, e)", "Http2Meaning"),
    ("Util.tla", "IF b \\in {EQ, AMP, SEMI} THEN Fail(s, \"Name\") ELSE QName(s, b)", "QName(s, b)", "UtilMeaning"),
    ("Util.tla", "[] s.c \\in {\"Name\", \"FName\", \"Equal\"} ->", "[] s.c \\in {\"Name\", \"FName\", \"Equal\", \"Next\"} ->", "UtilMeaning"),
    ("Util.tla", "ELSE IF b = SLASH THEN Emit(s, \"FName\", <<T(\"name\", b)>>)\n    ELSE IF b = Delim(s) THEN Emit(s, \"FStart\", <<E(\"item\")>>)",
     "ELSE IF b = Delim(s) THEN Emit(s, \"FStart\", <<E(\"item\")>>)\n    ELSE IF b = SLASH THEN Emit(s, \"FName\", <<T(\"name\", b)>>)", "UtilMeaning"),
    ("Util.tla", "[] s.c \\in {\"Value\", \"FValue\", \"After\"} ->", "[] s.c \\in {\"Value\", \"FValue\"} ->", "UtilMeaning"),
    ("Util.tla", "s.k * 16 + HexVal(b)", "s.k + HexVal(b) * 16", "UtilMeaning"),
    # the order of the parts
    ("Text.tla", '"RequestMethod", "RequestUrl", "RequestVersion"', '"RequestUrl", "RequestMethod", "RequestVersion"', "Http1Order"),
    ("Text.tla", '"ChunkExtensionValue", "ChunkData"', '"ChunkData", "ChunkExtensionValue"', "Http1Order"),
    # what is held back
    ("Http1.tla", "NotDelimiter(s, b, <<CR, LF, HYPHEN>>)", "NotDelimiter(s, b, <<CR, LF>>)", "Http1Table"),
    ("Http1.tla", "ELSE ScanByte(s, b, <<CR>>)", "ELSE ScanByte(s, b, <<CR, LF>>)", "Http1Table"),
    ("Http1.tla", "IF IsVisible(b) THEN Emit(s, \"Url\", <<T(\"url\", b)>>) ELSE", "IF IsVisible(b) THEN Emit(s, \"Url\", <<T(\"url\", SP)>>) ELSE", "Http1Table"),
    ("Http1.tla", "THEN Emit(s, \"Url1\", Ts(\"method\", held))", "THEN Emit(s, \"Url1\", <<>>)", "Http1Table"),
    ("Http1.tla", "IF s.k + 1 = Len(Bnd(s))", "IF s.k + 2 >= Len(Bnd(s))", "Http1Table"),
    # several parsers
    ("Several.tla", "s' = [s EXCEPT ![i] =", "s' = [s EXCEPT ![3 - i].got = <<>>, ![i] =", "Several"),
    ("Several.tla", "s' = [s EXCEPT ![i] =", "s' = [s EXCEPT ![3 - i].p.count = @ + 1, ![i] =", "Several"),
    ("Several.tla", "/\\ \\A k \\in 1..Len(open) : open[k].id # i", "/\\ TRUE", "Several"),
    # connections
    ("Http1.tla", "IF IsSpaceOrEol(b) THEN Go(s, \"Start\")", "IF IsBlank(b) THEN Go(s, \"Start\")", "Http1Connection"),
    ("Http1.tla", "ELSE IF IsBlank(b) THEN Go(s, \"Value\")   \\* folded line", "ELSE IF IsBlank(b) THEN Go(s, \"Strip\")", "Http1Connection"),
    ("Http1.tla", "IF s.len = 0 THEN Go(s, \"Hdr\") ELSE", "IF FALSE THEN Go(s, \"Hdr\") ELSE", "Http1Connection"),
    ("Http1.tla", "IF b = CR THEN Emit(t, \"ScanLf\", Ts(\"part\", held))", "IF FALSE THEN Emit(t, \"ScanLf\", Ts(\"part\", held))", "Http1Connection"),
    ("Http1.tla", "<<CR, LF, HYPHEN, HYPHEN>> \\o SubSeq(Bnd(s), 1, s.k)", "<<CR, LF, HYPHEN, HYPHEN>> \\o SubSeq(Bnd(s), 1, 0)", "Http1Connection"),
    ("Http1.tla", "ELSE IF b = EQ THEN Go(s, \"UValue\")", "ELSE IF b = EQ THEN Go(s, \"UFirst\")", "Http1Connection"),
    ("Http1.tla", "ELSE IF b = QUOTE THEN Go(s, \"ExtQuoted\")", "ELSE IF b = QUOTE THEN Go(s, \"ExtVal\")", "Http1Connection"),
    ("Http1.tla", "HeaderStep(s, b) ==", "HeaderStep(s, b) == IF s.ty = \"chunked\" /\\ s.c = \"HdrLf\" THEN HeadersEnd(s) ELSE", "Http1Connection"),
    ("Util.tla", "ELSE IF b = BSLASH THEN Go(s, \"Escaped\")", "", "Http1Connection"),
    ("Util.tla", "IF s.m[3] THEN Lower(b) ELSE b", "b", "Http1Connection"),
    ("Util.tla", "Emit(s, \"Value\", <<T(\"value\", SP)>>)", "Emit(s, \"Value\", <<T(\"value\", PLUS)>>)", "Http1Connection"),
    ("Util.tla", "s.k * 16 + HexVal(b)", "s.k + HexVal(b) * 16", "Http1Connection"),
    ("Http2.tla", "IF s.pad = 0 THEN To(Start, e)", "IF s.pad <= 1 THEN To(Start, e)", "Http2Connection"),
    ("Http2.tla", "[] s.ty = HEADERS -> IF s.fl = 2", "[] s.ty = HEADERS -> IF s.fl = 4", "Http2Connection"),
    ("Http2.tla", "IF s.ty = SETTINGS THEN b ELSE b % 128", "b % 128", "Http2Connection"),
    ("Http2.tla", "<<T(\"#sid\", b % 128)>>)", "<<T(\"#sid\", b)>>)", "Http2Connection"),
    ("Http2.tla", "IF t.len = 0 THEN To(Start, <<>>) ELSE To(t, <<>>)", "IF t.len <= 1 THEN To(Start, <<>>) ELSE To(t, <<>>)", "Http2Connection"),
]


def run(i):
    f, old, new, model = CASES[i]
    d = tempfile.mkdtemp(prefix="vacuity")
    try:
        shutil.copytree(SPEC, d + "/spec")
        p = d + "/spec/" + f
        s = open(p).read()
        assert s.count(old) == 1, (i, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
        out = subprocess.run(["tlc", "-workers", "2", "-metadir", d + "/md", "-config", model + ".cfg", model + ".tla"],
                             cwd=d + "/spec", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900).stdout
        hit = [l for l in out.splitlines() if l.startswith("Error:")]
        ok = bool(hit) and any(" violated" in l for l in hit)
        return ok, "%s: %s  %r -> %r  %s" % ("ok" if ok else "NOT SEEN", model, old.strip(), new.strip(), hit[:1] or out.splitlines()[-3:])
    finally:
        shutil.rmtree(d)


todo = [i for i in range(len(CASES)) if not sys.argv[1:] or CASES[i][3] in sys.argv[1:]]
with cf.ThreadPoolExecutor(3) as ex:
    rs = list(ex.map(run, todo))
for ok, t in rs:
    print(t)
sys.exit(0 if all(ok for ok, _ in rs) else 1)

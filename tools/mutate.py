#!/usr/bin/env python3
"""Measures what the machinery sees: small mechanical changes of the library, each run against the
harness (all properties at once, reduced numbers) and, if nothing is seen, against the tests.

  mutate.py OUT [workers] [file-regex] [sample]

Works in scratch copies under /tmp/w/mut; prints and writes the survivors.  Not used by any check.
"""
import concurrent.futures as cf
import os
import queue
import random
import re
import shutil
import subprocess
import sys
import time

BASE = "/tmp/w/mut"
FILES = ["src/http1/parser.rs", "src/http2/parser.rs", "src/collect.rs", "src/fsm.rs", "src/byte.rs",
         "src/util/decode.rs", "src/util/query.rs", "src/util/field.rs", "src/util/mod.rs",
         "src/http2/error_code.rs", "src/http2/flags.rs", "src/http2/frame_type.rs", "src/http2/setting.rs", "src/http2/frame_format.rs",
         "src/http1/http_handler.rs", "src/http2/http_handler.rs"]


def ops(line):
    """Replacements of one line."""
    out = []
    def sub(pat, *reps):
        for m in re.finditer(pat, line):
            for r in reps:
                x = line[:m.start()] + m.expand(r) + line[m.end():]
                if x != line:
                    out.append(x)
    code = line.split("//")[0]
    if not code.strip() or code.strip().startswith(("use ", "#[", "///", "//", "pub mod", "mod ")):
        return []
    sub(r"(?<![-=<>])>=(?!=)", ">", "<")
    sub(r"(?<![-=<>])<=(?!=)", "<", ">")
    sub(r" > ", " >= ", " < ")
    sub(r" < ", " <= ", " > ")
    sub(r"==", "!=")
    sub(r"!=", "==")
    sub(r"&&", "||")
    sub(r"\|\|", "&&")
    sub(r"\btrue\b", "false")
    sub(r"\bfalse\b", "true")
    sub(r" \+ ", " - ")
    sub(r" - ", " + ")
    sub(r"\+=", "-=", "=")
    sub(r"-=", "+=", "=")
    sub(r"<<", ">>")
    sub(r">>(?=[ \d])", "<<")
    sub(r" \| ", " & ")
    sub(r" & (?=[0-9a-z])", " | ")
    for m in re.finditer(r"(?<![\w.'\"#])(0x[0-9A-Fa-f]+|\d+)(?![\w.'])", code):
        n = int(m.group(1), 0)
        for k in (n + 1, n - 1):
            if k >= 0:
                out.append(line[:m.start()] + (hex(k) if m.group(1).startswith("0x") else str(k)) + line[m.end():])
        if n > 16:
            out.append(line[:m.start()] + hex(n >> 1) + line[m.end():])
    for m in re.finditer(r"b'(\\?.)'", code):
        alt = {"\\r": "\\n", "\\n": "\\r", "-": "+", " ": "\\t", "\\t": " ", "&": ";", ";": "&", "=": "-", "+": " ", "%": "&", '"': "'", "\\\\": "/", ":": ";"}.get(m.group(1), "z")
        out.append(line[:m.start()] + "b'" + alt + "'" + line[m.end():])
    s = line.strip()
    if s.endswith(";") and not s.startswith(("let ", "return", "}", "type ", "const", "pub ")) and s.count("(") == s.count(")"):
        out.append(line[:len(line) - len(line.lstrip())] + ";")
    m = re.match(r"(\s*(?:\} else )?if )(.*)( \{)$", line)
    if m and " let " not in line:
        out.append(m.group(1) + "!(" + m.group(2) + ")" + m.group(3))
        out.append(m.group(1) + "false && (" + m.group(2) + ")" + m.group(3))
        out.append(m.group(1) + "true || (" + m.group(2) + ")" + m.group(3))
    sub(r"\btransition!", "transition_no_remark!")
    sub(r"\btransition_no_remark!", "transition!")
    sub(r"\bcallback_ignore_transition!", "callback_transition!")
    sub(r"\bcallback_eos_expr!", "callback!")
    sub(r"bs_available!", "bs_slice_length!")
    sub(r"bs_slice_length!", "bs_available!")
    sub(r"bs_slice_ignore!\(\$context\)", "bs_slice!($context)")
    sub(r"bs_slice!\(\$?context\)", "bs_slice_ignore!(context)")
    sub(r"bit_data32a", "bit_data32b")
    sub(r"bit_data32b", "bit_data32a")
    return out


def mutants(root, pat):
    out = []
    for f in FILES:
        if not re.search(pat, f):
            continue
        lines = open(os.path.join(root, f)).read().split("\n")
        skip = False
        for i, l in enumerate(lines):
            for x in dict.fromkeys(ops(l)):
                out.append((f, i, l, x))
        # state names and functions of neighbours
        prev = None
        for i, l in enumerate(lines):
            m = re.match(r"^(\s+)([A-Z]\w+), ([a-z_0-9]+)\)?;?$", l)
            m2 = re.search(r"set_state!\((?:self|\$parser), (\w+), (\w+)\)", l)
            cur = (m.group(2), m.group(3)) if m else (m2.group(1), m2.group(2)) if m2 else None
            if cur:
                if prev and prev != cur:
                    out.append((f, i, l, l.replace(cur[0] + ", " + cur[1], prev[0] + ", " + prev[1])))
                prev = cur
        # two statements in the other order
        for i in range(len(lines) - 1):
            a, b = lines[i], lines[i + 1]
            if all(x.strip().endswith(";") and x.count("(") == x.count(")") and not x.strip().startswith(("}", "use", "//", "let", "return")) for x in (a, b)) and a != b:
                out.append((f, (i, i + 2), "\n".join((a, b)), b + "\n" + a))
    return out


def worker_dir(k):
    d = os.path.join(BASE, str(k))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    subprocess.run(["cp", "-a", "/verif/harness", d + "/harness"], check=True)
    p = d + "/harness/Cargo.toml"
    s = open(p).read().replace('path = "/repo"', 'path = "%s/repo"' % d).replace("opt-level = 2", "opt-level = 1").replace("codegen-units = 16", "codegen-units = 16\nincremental = true")
    open(p, "w").write(s.replace("incremental = false\n", ""))
    return d


def run(cmd, cwd, timeout, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def judge(d, m):
    f, i, old, new = m
    p = os.path.join(d, "repo", f)
    text = open("/repo/" + f).read().split("\n")
    a, b = i if isinstance(i, tuple) else (i, i + 1)
    assert "\n".join(text[a:b]) == old
    open(p, "w").write("\n".join(text[:a] + [new] + text[b:]))
    try:
        env = dict(os.environ, CARGO_TARGET_DIR=d + "/t", RUSTFLAGS="-Awarnings", CARGO_NET_OFFLINE="true")
        rc, out = run(["cargo", "build", "--release", "--offline", "--quiet"], d + "/harness", 300, env)
        if rc != 0:
            return "build", ""
        h = d + "/t/release/http-box-conformance"
        tab = BASE + "/tab/"
        com = ["--threads", "2", "--words", tab + "words", "--nums", tab + "nums", "--replays", d, "--hang", "5"]
        jobs = []
        if re.search("http1|collect|fsm|byte|util", f):
            jobs += [["run", "--table", tab + "Http1Table.tab", "--sweep", "1", "--walk", "30000", "--big", "400", "--hist", "10000", "--deep", "500"]]
        if re.search("http2/parser|collect|fsm|byte", f):
            jobs += [["run", "--table", tab + "Http2Table.tab", "--sweep", "1", "--walk", "20000", "--big", "400", "--hist", "10000", "--deep", "500"]]
        if re.search("util|byte|collect|fsm", f):
            jobs += [["util", "--table", tab + "UtilTable.tab", "--machine", m_ , "--exh", "5", "--limit", "300000", "--n", "150000"] for m_ in ("all",)]
        if re.search("byte|error_code|flags|frame_type|setting|frame_format", f):
            jobs += [["codes", "--table", tab + "CodesTable.tab"]]
        if re.search("http_handler", f):
            jobs += [["defaults", "--table", tab + ("Http1Table.tab" if "http1" in f else "Http2Table.tab"), "--n", "20000", "--focus", "C22"]]
        for j in jobs:
            rc, out = run([h] + j + com, d, 300)
            if rc != 0:
                tags = sorted(set(re.findall(r"^TAG (\S+)", out, re.M)))
                return "killed", ",".join(tags) or "rc=%d" % rc
        if "parser.rs" in f or "fsm" in f:
            for t in ("1", "2"):
                rc, out = run([h, "run", "--table", tab + "Http%sTable.tab" % t, "--sweep", "1", "--walk", "10000", "--big", "100", "--hist", "2000", "--deep", "100", "--focus", "C21"] + com, d, 300)
                if rc != 0:
                    return "killed", "C21"
        env = dict(os.environ, CARGO_TARGET_DIR=d + "/rt", CARGO_NET_OFFLINE="true")
        rc, out = run(["cargo", "test", "--offline", "--", "--test-threads", "2"], d + "/repo", 300, env)
        if rc != 0 and "test result" in out or rc == 124:
            return "tests", ""
        if rc != 0:
            return "build", ""
        return "SURVIVED", ""
    finally:
        shutil.copy("/repo/" + f, p)


def main():
    out, n, pat = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 4, sys.argv[3] if len(sys.argv) > 3 else "."
    ms = mutants("/repo", pat)
    if len(sys.argv) > 4:
        random.Random(7).shuffle(ms)
        ms = ms[:int(sys.argv[4])]
    print(len(ms), "mutants", flush=True)
    q = queue.Queue()
    for k in range(n):
        q.put(worker_dir(k))
    t0 = time.time()
    log = open(out, "a")
    count = {}
    def one(m):
        d = q.get()
        try:
            r, tags = judge(d, m)
        except Exception as e:
            r, tags = "tool", repr(e)
        q.put(d)
        count[r] = count.get(r, 0) + 1
        log.write("%s\t%s\t%s:%s\t%r\t%r\n" % (r, tags, m[0], m[1], m[2], m[3]))
        log.flush()
        if r in ("SURVIVED", "tool"):
            print(r, tags, "%s:%s" % (m[0], m[1] if isinstance(m[1], tuple) else m[1] + 1), "\n  -", m[2].strip(), "\n  +", m[3].strip(), flush=True)
        if sum(count.values()) % 50 == 0:
            print(count, int(time.time() - t0), flush=True)
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(one, ms))
    print(count, int(time.time() - t0))


main()

#!/usr/bin/env python3
"""Decides one property: check.py C01 [quick|thorough], or check.py replay FILE.

Every check explores the TLA+ specification with TLC, builds the conformance harness against the
working tree of /repo, and compares the two: behaviours of the specification are replayed into the
library, and calls recorded from the library are validated by TLC."""
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import mine      # noqa: E402
import tables    # noqa: E402
from plans import PLANS, LEVEL, ASSUMED, ASSUMPTIONS   # noqa: E402

REPO = "/repo"
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
CPUS = os.cpu_count() or 2
HARNESS = os.path.join(BUILD, "target", "release", "http-box-conformance")


class ToolError(Exception):
    pass


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.makedirs(REPLAYS, exist_ok=True)
        for f in glob.glob(os.path.join(REPLAYS, prop + "-*")):
            os.remove(f)
        self.spec = os.path.join(self.dir, "spec")
        shutil.copytree(os.path.join(HERE, "spec"), self.spec)
        self.lock = threading.Lock()
        self.violations = []          # (text, path)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.models, self.runs = [], []
        self.notes = []
        self.tables = {}
        self.mine()

    # -------------------------------------------------------------------------------------------
    def add(self, **kw):
        with self.lock:
            for k, v in kw.items():
                self.cov[k] = self.cov.get(k, 0) + v

    def violation(self, text, path):
        with self.lock:
            self.violations.append((text, path))

    def left(self, budget):
        return budget - (time.time() - self.t0)

    # -------------------------------------------------------------------------------------------
    def tlc(self, module, config=None, workers=2, env=None, timeout=840, name=None, args=()):
        """Runs TLC; returns its output and exit code."""
        config = config or module
        name = name or config
        meta = os.path.join(self.dir, "md-" + name)
        e = dict(os.environ)
        e.pop("TRACE", None)
        e.update(env or {})
        out = os.path.join(self.dir, name + ".tlc")
        cmd = ["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", config + ".cfg", *args, module + ".tla"]
        with open(out, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=self.spec, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise ToolError("TLC timed out on " + name)
        shutil.rmtree(meta, ignore_errors=True)
        text = open(out, errors="replace").read()
        m = None
        for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", text):
            pass
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m.groups())
        else:
            gen = dist = 0
        return rc, text, dist, gen

    def model(self, module, config=None, workers=2, **kw):
        """A model whose invariants have to hold; they are about the specification alone."""
        rc, text, dist, gen = self.tlc(module, config, workers, **kw)
        if rc != 0 or "No error has been found" not in text:
            raise ToolError("TLC failed on %s:\n%s" % (config or module, "\n".join(text.splitlines()[-30:])))
        self.add(states=dist, transitions=gen)
        with self.lock:
            self.models.append({"model": config or module, "states": dist, "transitions": gen})
        return text

    def table(self, proto):
        """Transition table of a reference machine, from TLC."""
        mod = {1: "Http1Table", 2: "Http2Table", 3: "UtilTable", "codes": "CodesTable"}[proto]
        if proto == 1:
            self.write_boundaries()
        text = self.model(mod, workers=4 if proto == 2 else 2)
        out, info = tables.codes(text) if proto == "codes" else tables.compact(proto, text)
        path = os.path.join(self.dir, mod + ".tab")
        with open(path, "w") as f:
            f.write(out)
        self.tables[proto] = path
        return path

    def messages(self, proto, seed):
        """Messages of an abstract sender, from TLC, which has seen that the specification understands them."""
        mod = "Http%dConnection" % proto
        text = self.model(mod, workers=4, env={"SEED": str(seed), "MINED": self.mined}, name="%s-%d" % (mod, seed))
        path = os.path.join(self.dir, "%s-%d.msgs" % (mod, seed))
        with open(path, "w") as f:
            f.write(tables.messages(text))
        return path

    def write_boundaries(self):
        """The boundaries of the specification and some that depend on the seed."""
        p = os.path.join(self.spec, "MCBoundaries.tla")
        text = open(p).read()
        r = random.Random(self.seed * 7919 + 17)
        extra = []
        def rnd(alpha, n):
            return [r.choice(alpha) for _ in range(n)]
        extra.append(rnd([45, 97], r.randint(2, 9)))
        extra.append(rnd(list(b"ab-"), r.randint(3, 12)))
        extra.append(rnd(list(range(33, 127)), r.randint(10, 38)) )
        extra.append(rnd(list(b"0123456789abcdefABCDEF'()+_,-./:=? "), 70))    # the longest that MIME allows
        if self.tier == "thorough":
            extra.append(rnd(list(b"abc-"), r.randint(128, 140)))
            extra.append(rnd([45], r.randint(2, 6)))
            extra.append(rnd(list(range(128, 256)), r.randint(1, 8)))
        add = "".join(",\n                   <<%s>>" % ", ".join(map(str, b)) for b in extra)
        i = text.rindex(">> >>")
        with open(p, "w") as f:
            f.write(text[:i + 2] + add + text[i + 2:])
        self.boundaries = extra

    # -------------------------------------------------------------------------------------------
    def build(self):
        """The harness, from the working tree of /repo."""
        target = os.path.join(BUILD, "target")
        for d in ("http-box-*", "http-box-conformance-*"):
            for p in glob.glob(os.path.join(target, "release", ".fingerprint", d)):
                shutil.rmtree(p, ignore_errors=True)
        env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTFLAGS="-Awarnings", CARGO_NET_OFFLINE="true")
        p = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(HERE, "harness"),
                           env=env, capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise ToolError("the harness does not build:\n" + p.stderr[-3000:])

    def mine(self):
        """What somebody who looks at the code would try."""
        words, nums = mine.mine(os.path.join(REPO, "src"))
        self.words = os.path.join(self.dir, "words")
        self.nums = os.path.join(self.dir, "nums")
        self.mined = os.path.join(self.dir, "mined.json")
        with open(self.words, "w") as f:
            f.write("\n".join(w.hex() for w in words) + "\n")
        with open(self.nums, "w") as f:
            f.write("\n".join(map(str, nums)) + "\n")
        with open(self.mined, "w") as f:
            json.dump({"words": [list(w) for w in words], "nums": [n for n in nums if n < 1 << 31]}, f)

    def harness(self, mode, timeout=840, **kw):
        cmd = [HARNESS, mode]
        for k, v in kw.items():
            if v is not None:
                cmd += ["--" + k, str(v)]
        try:
            p = subprocess.run(cmd, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("harness timed out: " + " ".join(cmd))
        return p.returncode, p.stdout.decode("utf-8", "replace")

    def explore(self, mode, tab, name, **kw):
        """Replays behaviours of the specification into the library."""
        path = self.tables[tab] if tab else None
        rdir = os.path.join(self.dir, "replays-" + name)
        os.makedirs(rdir, exist_ok=True)
        args = dict(table=path, focus=self.prop, replays=rdir, threads=CPUS, words=self.words, nums=self.nums, **kw)
        args.setdefault("seed", self.seed)
        tab = tab or ("several" if mode == "several" else None)
        rc, out = self.harness(mode, **args)
        stats = dict(re.findall(r"(\w+)=(\d+)", (re.search(r"^STATS.*$", out, re.M) or [""])[0]))
        n = int(stats.get("runs", stats.get("cases", 0)))
        if rc in (0, 1):
            self.add(traces_validated_against_impl=n)
            with self.lock:
                self.runs.append({"run": name, **{k: int(v) for k, v in stats.items()}})
        for m in re.finditer(r"^DIV (\S+) (\S+) (.*)$", out, re.M):
            dst = os.path.join(REPLAYS, "%s-%s-%s" % (self.prop, name, os.path.basename(m.group(1))))
            if os.path.exists(m.group(1)):
                with open(m.group(1)) as f, open(dst, "w") as g:
                    g.write("# %s table=%s seed=%d tier=%s\n" % (self.prop, tab, self.seed, self.tier))
                    g.write(f.read())
            self.violation(m.group(3), dst)
        if rc == 3:
            self.crash(mode, tab, name, args, out)
        elif rc not in (0, 1) or not stats:
            raise ToolError("harness %s %s exited with %d: %s" % (mode, name, rc, out[-2000:]))
        return out

    def crash(self, mode, tab, name, args, out):
        """The process died or did not come back: the case is in the output."""
        m = re.search(r"^CRASH (\w+) (\d+)", out, re.M)
        what, case = (m.group(1), m.group(2)) if m else ("unknown", "0")
        inp = re.search(r"^INPUT (\w+)", out, re.M)
        dst = os.path.join(REPLAYS, "%s-%s-crash.case" % (self.prop, name))
        text = "# %s table=%s seed=%d tier=%s\n# crash: %s in case %s of %s\n" % (self.prop, tab, self.seed, self.tier, what, case, mode)
        if mode == "run":
            for v in range(400):
                a = {k: args[k] for k in args if k in ("table", "seed", "words", "nums", "only", "groups", "types")}
                rc, one = self.harness("dump", id=case, variant=v, **a)
                if rc != 0:
                    break
                p = os.path.join(self.dir, "crash.case")
                with open(p, "w") as f:
                    f.write(one)
                rc, _ = self.harness("replay", table=self.tables[tab], case=p, timeout=120, nums=self.nums)
                if rc not in (0, 1):
                    text += one
                    break
        elif inp:
            text += "# input %s\n" % inp.group(1)
        text += "# %s\n" % " ".join("%s=%s" % kv for kv in args.items())
        with open(dst, "w") as f:
            f.write(text)
        self.violation("%s in case %s of %s" % (what, case, name), dst)

    # -------------------------------------------------------------------------------------------
    def record(self, proto, files, size, workers=4, **kw):
        """Records calls of the library and has TLC validate them against the specification."""
        mod = {1: "Http1Trace", 2: "Http2Trace", 3: "UtilTrace"}[proto]
        out = os.path.join(self.dir, "traces-%d" % proto)
        os.makedirs(out, exist_ok=True)
        args = dict(table=self.tables[proto], out=out, files=files, size=size, seed=self.seed, threads=CPUS,
                    words=self.words, nums=self.nums, **kw)
        rc, text = self.harness("record", **args)
        if rc == 3:
            return self.crash("record", proto, "record-%d" % proto, args, text)
        if rc != 0:
            raise ToolError("recording failed: " + text[-1000:])
        with cf.ThreadPoolExecutor(workers) as ex:
            list(ex.map(lambda k: self.validate(proto, mod, os.path.join(out, "%d.ndjson" % k)), range(files)))

    def validate(self, proto, mod, path, again=2):
        lines = open(path).read().splitlines()
        if len(lines) < 2:
            return
        rc, text, dist, gen = self.tlc(mod, workers=1, env={"TRACE": path}, name="%s-%s" % (mod, os.path.basename(path).split(".")[0]))
        m = re.search(r'"TRACE (\d+) (\d+)"', text)
        odd = None
        if m:
            done = int(m.group(1))
        else:
            # what was recorded is so far off that it cannot be evaluated, or the specification is broken
            at = re.findall(r"^(?:/\\ )?l = (\d+)", text, re.M)
            odd = ToolError("TLC failed on trace %s:\n%s" % (path, text[-2500:]))
            if not at:
                raise odd
            done = int(at[-1]) - 1
        self.add(states=dist, transitions=gen)
        cases = []
        if os.path.exists(path[:-7] + ".cases"):
            for l in open(path[:-7] + ".cases"):
                f = l.rstrip("\n").split(" ")
                cases.append((int(f[0]), f[1], [t for t in f[2].split(",") if t]))
        ok = done - 1 if proto == 3 else sum(1 for c in cases if c[0] <= done)
        self.add(traces_validated_against_impl=ok, calls_validated_by_tlc=done - 1)
        if done == len(lines):
            return
        # line done + 1 (line 1 is the header) is not a behaviour of the specification
        bad = done + 1
        if proto == 3:
            rec = json.loads(lines[bad - 1])
            hit = {"decode": "C15", "query": "C16", "field": "C17"}[rec["m"]] == self.prop
            first, last = bad, bad
        else:
            first, last, tags = 2, len(lines), []
            for i, c in enumerate(cases):
                if c[0] <= bad:
                    first, tags = c[0], c[2]
                    last = cases[i + 1][0] - 1 if i + 1 < len(cases) else len(lines)
            if odd and not tags:
                raise odd
            hit = self.prop in (tags or ["C03" if proto == 1 else "C14"] + (["C21"] if '"where"' in lines[bad - 1] else []))
        if hit:
            dst = os.path.join(REPLAYS, "%s-%s-%s" % (self.prop, mod, os.path.basename(path)))
            with open(dst, "w") as f:
                f.write("\n".join([lines[0]] + lines[first - 1:last]) + "\n")
            self.violation("a recorded call is no behaviour of %s: %s" % (mod, lines[bad - 1][:300]), dst)
        else:
            self.notes.append("a trace of %s deviates in a way that concerns other properties" % mod)
        if again > 0:
            # go on after the case that deviates
            rest = path[:-7] + ("x.ndjson")
            with open(rest, "w") as f:
                f.write("\n".join([lines[0]] + lines[last:]) + "\n")
            with open(rest[:-7] + ".cases", "w") as f:
                for c in cases:
                    if c[0] > last:
                        f.write("%d %s %s\n" % (c[0] - last + 1, c[1], ",".join(c[2])))
            self.validate(proto, mod, rest, again - 1)

    # -------------------------------------------------------------------------------------------
    def findings(self):
        """Known findings of this property that are still there."""
        rc, out = self.harness("probe")
        there = set(re.findall(r"^FOUND (\S+)", out, re.M))
        for l in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == self.prop and m.group(2) in there:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, m.group(3)))

    def samples(self, proto, ids, **kw):
        for i in ids:
            rc, out = self.harness("dump", table=self.tables[proto], id=i, variant=1, seed=self.seed, words=self.words, nums=self.nums, **kw)
            if rc == 0 and len(self.cov["samples"]) < 12:
                self.cov["samples"].append(out.strip()[:1200])

    def finish(self):
        cov = dict(self.cov, models=self.models, runs=self.runs)
        if self.notes:
            cov["notes"] = sorted(set(self.notes))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": LEVEL, "coverage": cov,
              "assumptions": ASSUMED.get(self.prop, ASSUMPTIONS), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for text, path in self.violations[:5]:
            print("  " + text[:600])
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][1]))
            return 1
        print("OK %s: %d states, %d transitions, %d behaviours on the library, %.1f s" %
              (self.prop, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0


def run(prop, tier, seed):
    c = Check(prop, tier, seed)
    try:
        PLANS[prop](c)
        c.findings()
    except ToolError as e:
        if c.violations:
            print("note: " + str(e)[:500])
            return c.finish()
        print("TOOL ERROR %s: %s" % (prop, e))
        return 2
    return c.finish()


def replay(path):
    """Runs the case of a replay file again and says what happens."""
    head = open(path).readline()
    if path.endswith(".ndjson"):
        mod = re.search(r"(Http1Trace|Http2Trace|UtilTrace)", path).group(1)
        c = Check("replay", "quick", 1)
        rc, text, *_ = c.tlc(mod, workers=1, env={"TRACE": os.path.abspath(path)})
        print("\n".join(l for l in text.splitlines() if "TRACE" in l or "rror" in l))
        return 1 if rc else 0
    m = re.match(r"# (\S+) table=(\S+) seed=(\d+) tier=(\S+)", head)
    prop, tab, seed, tier = m.groups()
    text = open(path).read().split("\n", 1)[1]
    c = Check("replay", tier, int(seed))
    c.build()
    if re.search("^connection ", text, re.M):
        p = os.path.join(c.dir, "case")
        with open(p, "w") as f:
            f.write(text)
        rc, out = c.harness("replay", case=p, nums=c.nums)
        print(out)
        return rc
    t = int(tab) if tab.isdigit() else 2 if tab == "None" else tab
    if t == "codes":
        c.table(t)
        rc, out = c.harness("codes", table=c.tables[t], focus=prop, replays=c.dir, seed=seed)
        print(out)
        return rc
    for x in (1, 2, 3) if t == "several" else (t,):
        c.table(x)
    p = os.path.join(c.dir, "case")
    with open(p, "w") as f:
        f.write(text)
    rc, out = c.harness("replay", case=p, nums=c.nums, **({"table%d" % x: c.tables[x] for x in (1, 2, 3)} if t == "several" else {"table": c.tables[t]}))
    print(out)
    return rc


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))))

"""Plants bugs. Reads definitions (a Python file with BUGS) and writes /verif/seeded/<id> for those that hold up:
the patch applies, the tree builds, the stable tests pass, the demonstration tells the trees apart."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

def sh(cmd, cwd=None, timeout=600):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def tests(tree):
    """All tests, the integration tests and the examples of the documentation included."""
    sh("cargo clean -p http-box --offline", tree)
    rc, o = sh("env -u RUSTFLAGS CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo test --workspace --no-fail-fast --offline 2>&1", tree)
    return rc, [l for l in o.splitlines() if re.match(r"test .* FAILED", l)], o

def verify(ids):
    """plant.py verify [ids]: the stable tests with every planted bug"""
    work = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    tree = work + "/repo"
    subprocess.check_call(["cp", "-a", REPO, tree])
    sh("git checkout -q -- .", tree)
    print("clean", tests(tree)[:2], flush=True)
    for id in ids or sorted(os.listdir(V + "/seeded")):
        d = V + "/seeded/" + id
        sh("git checkout -q -- .", tree)
        rc0, _ = sh("bash %s/demo.sh" % d, tree)
        subprocess.check_call(["git", "apply", d + "/patch.diff"], cwd=tree)
        rc1, _ = sh("bash %s/demo.sh" % d, tree)
        rc, bad, o = tests(tree)
        print(id, "ok" if (rc0, rc) == (0, 0) and rc1 not in (0, 2) and not bad else "BAD", rc0, rc1, rc, bad[:3], flush=True)
    shutil.rmtree(work)

def apply(text, edit, id):
    where, old, new = edit
    lo, hi = 0, len(text)
    if where:
        m = re.search(where, text)
        assert m, (id, "anchor", where)
        lo = m.start()
        n = re.search(r"\n    #\[inline\]|\n    (pub )?fn |\nmacro_rules", text[lo + 5:])
        hi = lo + 5 + n.start() if n else hi
    seg = text[lo:hi]
    assert seg.count(old) == 1, (id, "matches", seg.count(old), old)
    return text[:lo] + seg.replace(old, new) + text[hi:]

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    work = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    tree = work + "/repo"
    subprocess.check_call(["cp", "-a", REPO, tree])
    for b in ns["BUGS"]:
        if only and b["id"] not in only: continue
        out = V + "/seeded/" + b["id"]
        if os.path.exists(out) and not only: continue
        sh("git checkout -q -- .", tree)
        d = work + "/demo"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        shutil.copy(V + "/tools/demo/demo.sh", d); shutil.copy(V + "/tools/demo/rec.rs", d)
        open(d + "/main.rs", "w").write("mod rec;\n#[allow(unused_imports)]\nuse rec::*;\n" + b["demo"])
        rc, o = sh("bash %s/demo.sh" % d, tree)
        if rc: print(b["id"], "DEMO FAILS ON CLEAN", rc, o[-1500:]); continue
        try:
            for f, *e in b["edits"]:
                p = tree + "/" + f
                t = apply(open(p).read(), e, b["id"])
                open(p, "w").write(t)
        except AssertionError as e:
            print(b["id"], "EDIT", e); continue
        diff = subprocess.check_output(["git", "diff"], cwd=tree, text=True)
        rc, o = sh("bash %s/demo.sh" % d, tree)
        demo_rc, demo_o = rc, o
        if rc == 2: print(b["id"], "DOES NOT BUILD", o[-1500:]); continue
        if rc == 0: print(b["id"], "DEMO PASSES ON BUG"); continue
        rc, bad, o = tests(tree)
        if rc or bad: print(b["id"], "TESTS FAIL", rc, bad[:3], o[-300:] if not bad else ""); continue
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        print(b["id"], "OK", demo_o.strip().replace("\n", " | ")[:200])
    shutil.rmtree(work)
verify(sys.argv[2:]) if sys.argv[1] == "verify" else main()

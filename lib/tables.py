"""Turns the rows printed by TLC into the compact table read by the conformance harness."""
import json


def rows(text):
    meta, out = None, []
    for line in text.splitlines():
        if line.startswith('"META'):
            meta = json.loads(json.loads(line)[4:])
        elif line.startswith('"ROW'):
            out.append(json.loads(json.loads(line)[3:]))
    return meta, out


def key(k):
    return json.dumps(k)


def toks(ev):
    return " ".join([str(len(ev))] + ["%s %d" % (n, v) for n, v in ev])


def compact(proto, text):
    meta, rs = rows(text)
    if meta is None or not rs:
        raise RuntimeError("TLC printed no table")
    seen, uniq = set(), []
    for r in rs:
        if key(r["s"]) not in seen:
            seen.add(key(r["s"]))
            uniq.append(r)
    uniq.sort(key=lambda r: key(r["s"]))
    ids = {key(r["s"]): i for i, r in enumerate(uniq)}
    groups = sorted({r["g"] for r in uniq})
    kinds = sorted(meta["kinds"])
    er = lambda k: 0 if k == "" else kinds.index(k) + 1
    maxlen = meta.get("maxlen", 0)
    o = ["PROTO %d" % proto, "MAXLEN %d" % maxlen, "GROUPS " + " ".join(groups),
         "KINDS " + " ".join(kinds), "CLASS d " + " ".join(sorted(meta["data"])),
         "CLASS e " + " ".join(sorted(meta["events"]))]
    if meta.get("inplace"):
        o.append("INPLACE " + " ".join(sorted(meta["inplace"])))
    if meta.get("regs"):
        o.append("CLASS r " + " ".join(sorted(meta["regs"])))
        o += ["BASE %s %d" % kv for kv in sorted(meta["regs"].items())]
        o += ["ARGS %s %s" % (k, " ".join(v)) for k, v in sorted(meta["args"].items())]
    for b in meta.get("boundaries", []):
        o.append("BOUNDARY " + bytes(b).hex())
    if proto == 1:
        i = meta["init"]
        o += ["INIT %s %d" % (n, ids[key(i[n])]) for n in ("fresh", "head", "chunked")]
        o += ["INIT multi%d %d" % (n + 1, ids[key(k)]) for n, k in enumerate(i["multi"])]
        o += ["INIT url%d %d" % (n, ids[key(k)]) for n, k in enumerate(i["url"])]
    elif proto == 2:
        o.append("INIT h2 %d" % ids[key(meta["init"])])
    nrun = 0
    for i, r in enumerate(uniq):
        s = r["s"]
        if proto == 1:
            c, ty, ln, bd = s[0], s[1], s[2], s[3]
            sh = ids.get(key([c, ty, maxlen, bd, s[4]]), 0) if ln > maxlen else 0
        elif proto == 2:
            c, ty, ln, bd, sh = s[0], str(s[1]), s[3], 0, 0
        else:
            c, ty, ln, bd, sh = s[1], "-".join(str(x) for x in s[0]), 0, 0, 0
        kind = "X" if r["g"] == "end" else "A" if "a" in r else "Z" if "r" not in r else "N"
        o.append("S %d %d %s %d %d %d %d %s %s" % (i, groups.index(r["g"]), kind, ln,
                                                   1 if r.get("cnt") else 0, sh, bd, c, ty))
        if "w" in r:
            o.append("W " + r["w"])
        if r.get("h"):
            o.append("H %d" % r["h"])
        if "a" in r:
            o.append("A " + " ".join(str(ids[key(k)]) for k in r["a"]))
        if "z" in r:
            o.append("Z %d %d %s" % (ids[key(r["zn"])] if "zn" in r else i, er(r.get("ze", "")), toks(r["z"])))
        if "r" in r:
            runs = sorted(r["r"], key=lambda x: x[0])
            for j, run in enumerate(runs):
                lo = run[0]
                hi = runs[j + 1][0] - 1 if j + 1 < len(runs) else 255
                if proto == 2:
                    os = sorted(run[1])
                else:
                    os = [["any"] + run[1]]
                nrun += 1
                o.append("R %d %d %d " % (lo, hi, len(os)) + " ".join(
                    "%s %d %d %s" % (g, er(e), ids[key(n)], toks(ev)) for g, e, n, ev in os))
    return "\n".join(o) + "\n", {"states": len(uniq), "runs": nrun}


def codes(text):
    """One line per number: n setting frame byte error byte flags classes."""
    meta, rs = rows(text)
    if meta is None or len(rs) < 256:
        raise RuntimeError("TLC printed no table")
    names = lambda l: ",".join(sorted(l)) or "-"
    o = []
    for k in ("frames", "errors", "settings", "bits"):
        o += ["C %s %s %d" % (k, n, v) for n, v in sorted(meta[k].items())]
    o += ["T %s %s %s %s" % tuple(x) for x in sorted(meta["texts"])]
    o += ["B %s %s" % tuple(x) for x in sorted(meta["before"])]
    for r in sorted(rs, key=lambda r: r["n"]):
        l = "N %d %s" % (r["n"], r["setting"])
        if r["frame"] != "-":
            l += " %s %d %s %d %s %s" % (r["frame"], r["frame_byte"], r["error"], r["error_byte"],
                                         names(r["flags"]), names(r["classes"]))
        o.append(l)
    return "\n".join(o) + "\n", {"states": len(rs), "runs": len(o)}


if __name__ == "__main__":
    import sys
    t, info = codes(open(sys.argv[2]).read()) if sys.argv[1] == "codes" else compact(int(sys.argv[1]), open(sys.argv[2]).read())
    open(sys.argv[3], "w").write(t)
    print(info)


def messages(text):
    """Messages as TLC printed them: their bytes, and what is to be learnt from them."""
    out = []
    for line in text.splitlines():
        if line.startswith('"MSG'):
            m = json.loads(json.loads(line)[3:])
            args = lambda v: ".".join(map(str, v))
            out.append(bytes(m["w"]).hex() + " " + " ".join(["%s:%s" % (n, args(v)) for n, v in m["r"]]
                                                                + ["@:" + args(v) for v in m["s"]]))
    if not out:
        raise RuntimeError("TLC printed no messages")
    return "\n".join(sorted(out)) + "\n"

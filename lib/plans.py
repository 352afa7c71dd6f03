"""What every check does."""
import concurrent.futures as cf

LEVEL = "model_checking"
ASSUMED = {
    "C27": ["The receiver is the one of spec/Http1Connection.tla; fields of a head that frame the body occur once.",
            "Messages are drawn by number from the specification; what is explored is a sample of them, of their order, of slices and of interruptions."],
}
ASSUMPTIONS = [
    "The handler is a well-behaved implementation of HttpHandler: its callbacks return, and content_length() gives the same answer when asked twice for a part.",
    "Lengths above the MaxLen of a table are one abstract value in the model; the replayed behaviours pair it with concrete numbers.",
    "The state space of the models is explored completely; the replayed behaviours are a sample of the paths through it, and cover every byte in every state.",
]


def together(*jobs):
    """Runs jobs in parallel; the first error counts."""
    with cf.ThreadPoolExecutor(len(jobs)) as ex:
        fs = [ex.submit(j) for j in jobs]
        return [f.result() for f in fs]


SWEEP, WALK, HIST = 1 << 56, 2 << 56, 4 << 56


def calls(c, proto, quick):
    """The rules for single calls, explored over histories of calls."""
    if c.prop not in ("C01", "C02", "C03", "C09", "C14"):
        return []
    m = "Http%dCalls" % proto
    return [lambda: c.model(m, m if quick or c.prop not in ("C02", "C14") else m + "Deep", workers=4)]


def meaning(c, name, quick):
    """What whole inputs mean, against the byte machine, over every short input."""
    if c.prop not in ("C04", "C05", "C06", "C07", "C08", "C12", "C15", "C16", "C17"):
        return []
    m = name + "Meaning"
    return [lambda: c.model(m, m if quick else m + "Deep", workers=4)]


def http1(groups=None, types=None, only=None, hist=1, deep=1, record=True, giant=False):
    def plan(c):
        quick = c.tier == "quick"
        together(c.build, lambda: c.table(1))
        k = 1 if quick else 6
        def explore():
            c.explore("run", 1, "machine", groups=groups, types=types, only=only, sweep=6 if groups or types else 2,
                      walk=150_000, big=2_000, hist=60_000 * hist, deep=3_000 * deep)
            if not c.violations and not quick:
                n = 0
                while c.left(420) > 0 and not c.violations:
                    n += 1
                    c.explore("run", 1, "machine-%d" % n, seed=c.seed + 1000 * n, groups=groups, types=types, only=only,
                              sweep=12 if groups or types else 4, walk=600_000, big=20_000, hist=300_000 * hist, deep=15_000 * deep)
        more = [lambda: c.explore("giant", None, "giant", deep=0 if quick else 1)] if giant else []
        together(explore, *more, *calls(c, 1, quick), *meaning(c, "Http1", quick))
        if record:
            c.record(1, 4 * k, 5000, only=only, groups=groups, types=types, workers=4)
        c.samples(1, [SWEEP | 5, SWEEP | 4711, WALK | 1, WALK | 2, HIST | 1], only=only, groups=groups, types=types)
    return plan


def http2(raw=False, groups=None, hist=1):
    def plan(c):
        quick = c.tier == "quick"
        together(c.build, lambda: c.table(2))
        together(lambda: c.explore("run", 2, "machine", groups=groups, sweep=2, walk=200_000, big=3_000, hist=60_000 * hist, deep=4_000),
                 *calls(c, 2, quick), *meaning(c, "Http2", quick))
        c.explore("giant", None, "giant", deep=0 if quick else 1)
        if raw:
            c.explore("raw", None, "irregular", n=400_000)
        n = 0
        while not quick and c.left(420) > 0 and not c.violations:
            n += 1
            c.explore("run", 2, "machine-%d" % n, seed=c.seed + 1000 * n, groups=groups, sweep=4, walk=800_000, big=20_000,
                      hist=300_000 * hist, deep=20_000)
            if raw:
                c.explore("raw", None, "irregular-%d" % n, seed=c.seed + 1000 * n, n=2_000_000)
        c.record(2, 4 if quick else 24, 5000, groups=groups)
        c.samples(2, [SWEEP | 5, SWEEP | 9000, WALK | 1, WALK | 2, HIST | 1], groups=groups)
    return plan


def again(c):
    """C11: what an initialised parser reports does not depend on what it has been through."""
    quick = c.tier == "quick"
    together(c.build, lambda: c.table(1), lambda: c.table(2))
    n = 0
    while True:
        s = c.seed + 1000 * n
        x = "" if n == 0 else "-%d" % n
        c.explore("run", 1, "http1" + x, seed=s, sweep=2, walk=100_000, big=2_000, hist=360_000, deep=3_000)
        c.explore("run", 2, "http2" + x, seed=s, sweep=1, walk=50_000, big=1_000, hist=150_000, deep=1_000)
        n += 1
        if quick or c.violations or c.left(420) < 0:
            break
    c.record(1, 4 if quick else 24, 5000)
    c.record(2, 2 if quick else 12, 5000)
    c.samples(1, [WALK | 1, HIST | 1, HIST | 2, HIST | 3])
    c.samples(2, [HIST | 1, HIST | 2])


def where(c):
    """C21: state() names the part of the message that the next byte belongs to."""
    quick = c.tier == "quick"
    together(c.build, lambda: c.table(1), lambda: c.table(2))
    n = 0
    while True:
        s = c.seed + 1000 * n
        x = "" if n == 0 else "-%d" % n
        c.explore("run", 1, "http1" + x, seed=s, sweep=4, walk=100_000, big=2_000, hist=60_000, deep=4_000)
        c.explore("run", 2, "http2" + x, seed=s, sweep=2, walk=100_000, big=2_000, hist=40_000, deep=3_000)
        n += 1
        if quick or c.violations or c.left(420) < 0:
            break
    c.record(1, 4 if quick else 24, 5000, place=1)
    c.record(2, 2 if quick else 12, 5000, place=1)
    c.samples(1, [SWEEP | 5, WALK | 1, HIST | 1])
    c.samples(2, [WALK | 1, HIST | 2])


def several(c):
    """C25: parsers and iterators do not notice each other."""
    quick = c.tier == "quick"
    together(c.build, lambda: c.table(1), lambda: c.table(2), lambda: c.table(3),
             lambda: c.model("Several", workers=4))
    tabs = dict(table1=c.tables[1], table2=c.tables[2], table3=c.tables[3])
    n = 0
    while True:
        s = c.seed + 1000 * n
        c.explore("several", None, "several" + ("" if n == 0 else "-%d" % n), seed=s, n=1_200_000, **tabs)
        n += 1
        if quick or c.violations or c.left(420) < 0:
            break
    for proto in (1, 2):
        c.record(proto, 4 if quick else 16, 5000, several=1, replays=c.dir, **tabs)
    for proto in (1, 2):
        for l in open(c.dir + "/traces-%d/0.ndjson" % proto).read().splitlines()[1:6]:
            c.cov["samples"].append(l[:400])


def memory(c):
    """C26: parsing needs no memory, and data is handed out from where it lies."""
    quick = c.tier == "quick"
    together(c.build, lambda: c.table(1), lambda: c.table(2), lambda: c.table(3))
    n = 0
    while True:
        s = c.seed + 1000 * n
        x = "" if n == 0 else "-%d" % n
        c.explore("memory", 1, "http1" + x, seed=s, n=1_000_000)
        c.explore("memory", 2, "http2" + x, seed=s, n=500_000)
        c.explore("memory", 3, "util" + x, seed=s, n=1_000_000)
        n += 1
        if quick or c.violations or c.left(420) < 0:
            break
    c.samples(1, [SWEEP | 5, WALK | 1, WALK | 2])
    c.samples(2, [WALK | 1, WALK | 2])


def connection(c):
    """C27: what is sent over a connection arrives."""
    quick = c.tier == "quick"
    got = together(c.build, lambda: c.messages(1, c.seed), lambda: c.messages(2, c.seed))
    n = 0
    while True:
        s = c.seed + 1000 * n
        x = "" if n == 0 else "-%d" % n
        c.explore("connection", None, "http1" + x, seed=s, proto=1, messages=got[1], n=1_500_000)
        c.explore("connection", None, "http2" + x, seed=s, proto=2, messages=got[2], n=2_000_000)
        if n == 0:
            for p in got[1:]:
                c.cov["samples"] += [l[:600] for l in open(p).read().splitlines()[:3]]
        n += 1
        if quick or c.violations or c.left(420) < 0:
            break
        got = [None] + together(lambda: c.messages(1, s + 1000), lambda: c.messages(2, s + 1000))


def defaults(c):
    """C22: callbacks that a handler leaves out."""
    quick = c.tier == "quick"
    together(c.build, lambda: c.table(1), lambda: c.table(2))
    n = 0
    while True:
        s = c.seed + 1000 * n
        x = "" if n == 0 else "-%d" % n
        c.explore("defaults", 1, "http1" + x, seed=s, n=1_500_000)
        c.explore("defaults", 2, "http2" + x, seed=s, n=1_500_000)
        n += 1
        if quick or c.violations or c.left(420) < 0:
            break
    c.samples(1, [SWEEP | 5, WALK | 1, WALK | 2])
    c.samples(2, [WALK | 1, WALK | 2])


def util(machine, trace=True, models=()):
    def plan(c):
        quick = c.tier == "quick"
        together(c.build, lambda: c.table(3), *[(lambda m=m: c.model(*m)) for m in models],
                 *meaning(c, "Util", quick))
        c.explore("util", 3, "machine", machine=machine, exh=6 if quick else 8, limit=4_000_000 if quick else 60_000_000, n=1_500_000)
        n = 0
        while not quick and c.left(300) > 0 and not c.violations:
            n += 1
            c.explore("util", 3, "machine-%d" % n, machine=machine, exh=1, n=20_000_000, seed=c.seed + 1000 * n)
        if trace:
            c.record(3, 3 if quick else 24, 9000, machine=machine)
            for l in open(c.dir + "/traces-3/0.ndjson").read().splitlines()[1:6]:
                c.cov["samples"].append(l[:600])
        else:
            c.cov["samples"].append("all inputs over one byte per class up to the length in runs[], e.g. a=b&c;d=%41+")
    return plan


def codes(c, models=()):
    together(c.build, lambda: c.table("codes"), *[(lambda m=m: c.model(m)) for m in models])
    c.explore("codes", "codes", "codes")
    c.cov["samples"] += open(c.tables["codes"]).read().splitlines()[:3]
    c.cov["samples"] += open(c.tables["codes"]).read().splitlines()[-2:]
    c.cov["exhaustive"] = True


def total(c):
    """C10: nothing makes any part of the library panic, hang or read what it must not."""
    quick = c.tier == "quick"
    together(c.build, lambda: c.table(1), lambda: c.table(2), lambda: c.table(3))
    n = 0
    while True:
        s = c.seed + 1000 * n
        x = "" if n == 0 else "-%d" % n
        c.explore("run", 1, "http1" + x, seed=s, sweep=2, walk=100_000, big=3_000, hist=60_000, deep=2_000)
        c.explore("run", 2, "http2" + x, seed=s, sweep=2, walk=100_000, big=3_000, hist=60_000, deep=2_000)
        c.explore("raw", None, "irregular" + x, seed=s, n=300_000)
        c.explore("util", 3, "util" + x, seed=s, machine="all", exh=5 if n == 0 else 1, limit=2_000_000, n=1_000_000)
        n += 1
        if quick or c.violations or c.left(480) < 0:
            break
    c.record(1, 2 if quick else 16, 5000)
    c.record(2, 2 if quick else 16, 5000)
    c.record(3, 2 if quick else 16, 5000, machine="all")
    c.samples(1, [SWEEP | 77, WALK | 3, HIST | 2])
    c.samples(2, [SWEEP | 77, WALK | 3, HIST | 2])


PLANS = {
    "C01": http1(),
    "C02": http1(deep=2),
    "C03": http1(deep=2, giant=True),
    "C04": http1(groups="start", types="head", only="head"),
    "C05": http1(groups="header"),
    "C06": http1(groups="chunk", types="chunked", only="chunked", giant=True),
    "C07": http1(groups="multipart", types="multipart", only="multi", giant=True),
    "C08": http1(groups="url", types="url", only="url", giant=True),
    "C09": http1(),
    "C10": total,
    "C11": again,
    "C12": http2(),
    "C13": http2(hist=2),
    "C14": http2(raw=True),
    "C15": util("decode"),
    "C16": util("query"),
    "C17": util("field"),
    "C18": util("agree", trace=False, models=[("UrlAgree",)]),
    "C19": codes,
    "C20": codes,
    "C21": where,
    "C22": defaults,
    "C23": codes,
    "C27": connection,
    "C25": several,
    "C26": memory,
    "C24": lambda c: codes(c, ["Http1Order"]),
}

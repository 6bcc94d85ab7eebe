"""The parts written in Python: JSON data files and the LRU cache of pySim."""
import json, os, re
from cachegen import *
import lib

NULL = -1000000000


def executor(ctx):
    ctx.env = dict(ctx.env or lib.go_env(), VREPO=os.path.dirname(os.path.dirname(lib.SIM)))
    return os.path.join(lib.VERIF, "harness", "pyexec.py")


# ------------------------------------------------------------- data files
FORMATS = [("json", "reader"), ("json", "reader"), ("json.gz", "reader"), ("json.bz2", "reader"), ("bytes", "reader"),
           ("json.gz", "wrap"), ("json.bz2", "wrap"), ("bytes", "wrap"), ("bytes", "writer")]


def write_op(rng, l, mode, shape):
    how = rng.choice(["dicts", "strs", "gen", "one", "mixed"])
    o = dict(op="write", l=l, mode=mode, how=how)
    if how == "strs" and rng.random() < .3:
        o["indent"] = rng.choice([0, 1, 2])
    if rng.random() < .3:
        o["ctor"] = True
    return o


def read_op(rng, n, api):
    k = rng.random()
    at = lambda: rng.choice([0, n - 1, n, rng.randint(0, n + 2), rng.randint(0, max(0, n - 1)), rng.randint(0, max(0, n - 1))])
    if k < .35:
        i = at() if rng.random() < .7 else -rng.randint(1, n + 2)
        return dict(op="index", at=i)
    if k < .55:
        a, b = max(0, at()), max(0, at())
        s = rng.choice([NULL, NULL, 1, 2, 3, 0]) if a <= b else rng.choice([NULL, 1])
        if rng.random() < .2 and a <= b:
            a = NULL
        return dict(op="slice", a=a, b=b, s=s)
    if k < .57:
        return dict(op="list")
    if k < .59:
        return dict(op="mid", k=rng.randint(0, max(0, n)))
    if k < .65:
        return dict(op="iter", k=rng.choice([-1, -1, 0, 1, rng.randint(0, n + 1)]))
    if k < .72:
        return dict(op="len")
    if k < .76:
        return dict(op="raw")
    if k < .79:
        return dict(op="fresh")
    if api == "reader":
        if k < .9:
            return dict(op="from", at=max(0, at()), k=rng.choice([-1, -1, 0, 1, rng.randint(0, n + 1)]))
        return dict(op="cp", at=rng.randint(0, n - 1)) if n else dict(op="len")
    if k < .88:
        return dict(op="chunks", k=rng.choice([1, 2, 3, 100, max(1, n)]))
    if k < .93:
        return dict(op="data", k=rng.choice([-1, 0, 1, rng.randint(0, n + 1)]))
    return dict(op="pickle") if api == "wrap" else dict(op="iter", k=-1)


def datafile_scen(rng, id, fmt, api, big=False):
    shape = rng.choice(["plain", "plain", "nested", "nested", "large", "mixed", "mixed", "scalar", "list"])
    n, nxt, ops = 0, 1, []
    total = rng.choice([0, 1, 2, 3, 5, 10, 30]) if not big else rng.choice([200, 700])
    pieces = rng.randint(1, 4)
    for p in range(pieces):
        m = total // pieces if p < pieces - 1 else total - (total // pieces) * (pieces - 1)
        new = p == 0 or rng.random() < .1
        ids = list(range(nxt, nxt + m))
        rng.shuffle(ids)
        nxt += m
        ops.append(write_op(rng, ids, "w" if new else "a", shape))
        n = m if new else n + m
        if rng.random() < .15:
            ops.append(dict(op="write", l=[], mode="a", how="bad", bad=rng.randrange(6)))
        if rng.random() < .6 or p == pieces - 1:
            ops += [read_op(rng, n, api) for _ in range(rng.choice([3, 8, 20, 40]) if not big else 12)]
    return scen(id, dict(type=fmt, fmt=fmt, api=api, shape=shape, n=max(1, nxt)), ops, "datafile")


def datafile_check(ctx, n):
    rng = ctx.rng
    binary = executor(ctx)
    ops = [dict(op="index", at=a) for a in (0, 1, 2, 3, -1, -2)] + \
          [dict(op="slice", a=0, b=2, s=NULL), dict(op="slice", a=1, b=4, s=2), dict(op="slice", a=2, b=0, s=NULL)] + \
          [dict(op="iter", k=1), dict(op="iter", k=-1), dict(op="from", at=1, k=1), dict(op="from", at=3, k=-1), dict(op="cp", at=1), dict(op="cp", at=2), dict(op="len"), dict(op="list")]
    m = dict(records=4, depth=4 if ctx.quick else 6, ops=ops)
    fn = ctx.path("df.json")
    json.dump(m, open(fn, "w"))
    scripts = ctx.model_check("DataFileMC", {"MCCFG": fn}, "DataFileMC")
    seqs = sorted({tuple(int(x) for x in re.findall(r"\d+", s)) for s in scripts})
    keep = [a for a, b in zip(seqs, seqs[1:] + [()]) if b[:len(a)] != a]
    lim = 1500 if ctx.quick else 15000
    ctx.mc[-1]["maximal_scripts"] = len(keep)
    if len(keep) > lim:
        keep = rng.sample(keep, lim)
    ctx.mc[-1]["replayed"] = len(keep)
    sc = []
    for j, t in enumerate(keep):
        fmt = rng.choice(["json", "json", "json.gz", "bytes"])
        first = dict(op="write", l=list(range(1, t[0] + 1)), mode="w", how="dicts")
        sc.append(scen("m%d" % j, dict(type=fmt, fmt=fmt, api="reader", shape=rng.choice(["plain", "nested"]), n=max(1, t[0])), [first] + [ops[i - 1] for i in t[1:]], "datafile"))
    for j in range(n if ctx.quick else n * 10):
        fmt, api = FORMATS[j % len(FORMATS)]
        sc.append(datafile_scen(rng, "h%d" % j, fmt, api))
    for j in range(6 if ctx.quick else 60):
        fmt, api = FORMATS[j % len(FORMATS)]
        sc.append(datafile_scen(rng, "b%d" % j, fmt, api, big=True))
    tr = ctx.execute(binary, sc, "d")
    ctx.log("%d data files read" % len(sc))
    ctx.validate("DataFileTrace", sc, tr)
    ctx.log("answers judged")


# ------------------------------------------------------- Avro data files
AVROS = [("path", "reader"), ("path", "reader"), ("path", "wrap"), ("path", "writer"), ("bytes", "reader"), ("bytes", "wrap"), ("bytes", "writer"), ("file", "reader"), ("file", "writer")]
ROWS = ["single", "ints", "texts", "flat", "large", "own", "own"] + ["nested"] * 7


def any_shape(rng, shapes):
    s = rng.choice(shapes)
    return s if s != "nested" else "nested%d" % rng.randrange(10 ** 6)


def avro_read(rng, n, fmt, api):
    k = rng.random()
    at = lambda: rng.choice([0, n - 1, n, rng.randint(0, n + 2), rng.randint(0, n - 1), rng.randint(0, n - 1)])
    if k < .25:
        return dict(op="index", at=at() if rng.random() < .85 else -rng.randint(1, n + 2))
    if k < .45:
        a, b = at(), at()
        s = rng.choice([NULL, NULL, 1, 2, 3, 0]) if a <= b else rng.choice([NULL, 1])
        if rng.random() < .2 and a <= b:
            a = NULL
        return dict(op="slice", a=a, b=b, s=s)
    if k < .53:
        return dict(op="start")
    if k < .68:
        return dict(op="next")
    if k < .75:
        return dict(op="len")
    if k < .78:
        return dict(op="mid", k=rng.randint(0, n))
    if k < .81:
        return dict(op="list")
    if k < .85:
        return dict(op="raw", w=rng.random() < .4)
    if k < .88:
        return dict(op="fresh")
    if api in ("wrap", "writer"):
        if k < .93:
            return dict(op="chunks", k=rng.choice([1, 2, 3, 100, max(1, n)]))
        if k < .96 and api == "wrap":
            return dict(op="pickle")
        return dict(op="data", k=rng.choice([-1, 0, 1, rng.randint(0, n + 1)]))
    return dict(op="iter", k=rng.choice([-1, -1, 0, 1, rng.randint(0, n + 1)]))


def avro_reads(rng, n, fmt, api, m):
    l, on = [], False
    for _ in range(m):
        o = avro_read(rng, n, fmt, api)
        if o["op"] == "next" and not on:
            l.append(dict(op="start"))
        on = o["op"] in ("start", "next") or on and o["op"] == "len"
        l.append(o)
    return l


def avro_scen(rng, id, fmt, api, big=False):
    shape = any_shape(rng, ROWS)
    n, nxt, ops = 0, 1, []
    total = rng.choice([1, 2, 3, 5, 10, 30]) if not big else rng.choice([200, 700])
    pieces = rng.randint(1, 4)
    for p in range(pieces):
        m = total // pieces if p < pieces - 1 else total - (total // pieces) * (pieces - 1)
        new = p == 0 or rng.random() < .1
        ids = list(range(nxt, nxt + m))
        rng.shuffle(ids)
        nxt += m
        o = dict(op="write", l=ids, mode="w" if new else "a", how=rng.choice(["one", "list", "list"]))
        if rng.random() < .3:
            o["ctor"] = True
        ops.append(o)
        n = m if new else n + m
        if rng.random() < .15 and n:
            ops.append(dict(op="write", l=[], mode="a", how="bad", bad=rng.randrange(7)))
        if p == pieces - 1 and rng.random() < .5:
            ops[-1]["end"] = ops[-1]["how"] != "bad"
        if n and (rng.random() < .6 or p == pieces - 1):
            ops += avro_reads(rng, n, fmt, api, rng.choice([3, 8, 20, 40]) if not big else 12)
    return scen(id, dict(type="avro", fmt=fmt, api=api, shape=shape, n=nxt, codec=rng.choice(["", "", "null", "deflate", "snappy"])), ops, "avrofile")


def avrofile_check(ctx, n):
    rng = ctx.rng
    binary = executor(ctx)
    ops = [dict(op="index", at=a) for a in (0, 1, 2, 3, -1)] + \
          [dict(op="slice", a=0, b=2, s=NULL), dict(op="slice", a=1, b=4, s=2), dict(op="slice", a=2, b=0, s=NULL)] + \
          [dict(op="start"), dict(op="next"), dict(op="len"), dict(op="list")]
    m = dict(records=4, depth=5 if ctx.quick else 7, ops=ops)
    fn = ctx.path("avro.json")
    json.dump(m, open(fn, "w"))
    sc = []
    for j, t in enumerate(maximal(ctx, ctx.model_check("AvroFileMC", {"MCCFG": fn}, "AvroFileMC"), 1500 if ctx.quick else 15000)):
        fmt, api = rng.choice(AVROS)
        k, w, at = t[0], [], 1
        for b in t[1:1 + k]:
            w.append(dict(op="write", l=list(range(at, at + b)), mode="a" if w else "w", how="list"))
            at += b
        sc.append(scen("m%d" % j, dict(type="avro", fmt=fmt, api=api, shape=any_shape(rng, ["flat", "nested", "own"]), n=at, codec=""), w + [ops[i - 1] for i in t[1 + k:]], "avrofile"))
    for j in range(n if ctx.quick else n * 10):
        fmt, api = AVROS[j % len(AVROS)]
        sc.append(avro_scen(rng, "h%d" % j, fmt, api))
    for j in range(9 if ctx.quick else 90):
        fmt, api = AVROS[j % len(AVROS)]
        sc.append(avro_scen(rng, "b%d" % j, fmt, api, big=True))
    tr = ctx.execute(binary, sc, "d")
    ctx.log("%d data files read" % len(sc))
    ctx.validate("AvroFileTrace", sc, tr)
    ctx.log("answers judged")


# ------------------------------------------------------------- the cache
def py_get(f, size):
    return dict(op="get", f=f, s=size)


def pycache_check(ctx, n):
    rng = ctx.rng
    binary = executor(ctx)
    m = dict(max=4, depth=6 if ctx.quick else 8, ops=[py_get(1, 1), py_get(2, 2), py_get(3, 3), py_get(4, 4), py_get(5, 5), py_get(6, 2), py_get(7, 0)])
    fn = ctx.path("py.json")
    json.dump(m, open(fn, "w"))
    scripts = ctx.model_check("PyCacheMC", {"MCCFG": fn}, "PyCacheMC")
    seqs = sorted({tuple(int(x) for x in re.findall(r"\d+", s)) for s in scripts})
    keep = [a for a, b in zip(seqs, seqs[1:] + [()]) if b[:len(a)] != a]
    lim = 1500 if ctx.quick else 15000
    ctx.mc[-1]["maximal_scripts"] = len(keep)
    if len(keep) > lim:
        keep = rng.sample(keep, lim)
    ctx.mc[-1]["replayed"] = len(keep)
    sc = []
    for j, t in enumerate(keep):
        u = rng.choice([1, 1, 2, 1024])
        k = rng.choice([1, 1, 7, 4096])
        sc.append(scen("m%d" % j, dict(type="lru", u=u, max=4 * k, dflt=False), [py_get(m["ops"][i - 1]["f"], m["ops"][i - 1]["s"] * k) for i in t], "pycache"))
    for j in range(n if ctx.quick else n * 10):
        u = rng.choice([1, 1, 2, 16])
        mx = rng.choice([1, 3, 10, 50, 500, 10 ** 6])
        dflt = rng.random() < .08
        if dflt:
            u, mx = 1, 104857600
        nf = rng.choice([3, 5, 8, 15, 40])
        top = rng.choice([mx, mx // 2, mx // 5, mx + mx // 3])
        sizes = {f: rng.randint(0 if rng.random() < .1 else 1, max(1, top)) for f in file_ids(rng, nf)}
        hot = rng.sample(sorted(sizes), max(1, nf // 3))
        ops = []
        for _ in range(rng.choice([20, 60, 150, 400])):
            f = rng.choice(hot) if rng.random() < .4 else rng.choice(sorted(sizes))
            ops.append(py_get(f, sizes[f]))
            if len(ops) * top > 2 * 10 ** 9:
                break
        sc.append(scen("h%d" % j, dict(type="lru", u=u, max=mx, dflt=dflt), ops, "pycache"))
    tr = ctx.execute(binary, sc, "y")
    ctx.log("%d histories executed" % len(sc))
    ctx.validate("PyCacheTrace", sc, tr)
    ctx.log("answers judged")


# ------------------------------------------------------------- support tables
UNKNOWN = "__unknown__"
TABLES = ["classes", "features", "other_table"]
KEYS = ["Upper", "campaign", "file_type", "process", "z"]
PARTS = ["Run", "run", "2017", "2018", "A", "B", "b", "MC", "mini", "AOD", "AODSIM", "v1", "v2", "Fall", "TuneCP5", "x", "é"]


def codes(s):
    return [ord(c) for c in s]


def some_words(rng, n):
    res = []
    for _ in range(n):
        k = rng.random()
        if k < .1:
            w = rng.choice(["a", "b", "A", "B", "ab", "Ab", "abc", "0", "_", "-", "~", "Z", "zz"])
        elif k < .2 and res:
            w = rng.choice(res) + rng.choice(["", "-", "_"]) + rng.choice(PARTS)
        elif k < .25 and res:
            w = rng.choice(res).swapcase()
        else:
            w = rng.choice("-_ -").join(rng.choice(PARTS) for _ in range(rng.randint(1, 4)))
            if rng.random() < .3:
                w += rng.choice("-_") + rng.choice(PARTS)
        if w not in res and "ſ" not in w and w == w.replace("É", "e"):
            res.append(w)
    return res or ["a"]


def table_scen(rng, id, big=False):
    nt, nk = rng.randint(1, 3), rng.randint(1, 4)
    words = {(t, k): some_words(rng, rng.choice([1, 3, 8, 20]) if not big else 150) for t in range(1, nt + 1) for k in range(1, nk + 1)}
    ops, used = [], set()
    ask = lambda g: (lambda w: w if rng.random() < .5 else w + rng.choice(["", "-", "x", "_AOD"]) if rng.random() < .8 else rng.choice(["nothing", UNKNOWN, UNKNOWN + "x", w[:-1], w.upper(), "zzz"]))(rng.choice(words[g]))
    unk = {g: rng.random() < .75 for g in words}
    for rnd in range(rng.choice([1, 2, 2, 3, 4])):
        new = rng.choice([2, 5, 15]) if not big else 250
        for _ in range(new):
            g = rng.choice(sorted(words))
            used.add(g)
            ops.append(dict(op="insert", t=g[0], k=g[1], v=codes(rng.choice(words[g])), unk=unk[g]))
            if rng.random() < .1:
                ops.append(query(rng, rng.choice(sorted(words)), ask, nk))
        if rng.random() < .3:
            g = rng.choice(sorted(used)) if rng.random() < .95 else (nt, nk)
            ops.append(dict(op="reduce", t=g[0], k=g[1], lvls=rng.choice([0, 0, 0, 1, 2, 5])))
        if rng.random() < .9:
            ops.append(dict(op="gen"))
        for _ in range(rng.choice([5, 15, 30]) if not big else 300):
            g = rng.choice(sorted(used)) if rng.random() < .95 else rng.choice(sorted(words))
            ops.append(query(rng, g, ask, nk))
        if rng.random() < .3:
            ops.append(dict(op="pickle"))
        elif rng.random() < .2 and any(o["op"] == "gen" for o in ops):
            ops.append(dict(op="rebuild", how=rng.choice(["plain", "attribute"])))
        if rng.random() < .3:
            ops += [query(rng, rng.choice(sorted(used)), ask, nk) for _ in range(4)]
    return scen(id, dict(type="table", tables=TABLES, keys=KEYS), ops, "table")


def query(rng, g, ask, nk):
    k = rng.random()
    t, key = g
    if k < .3:
        return dict(op="close", t=t, k=key, v=codes(ask(g)))
    if k < .55:
        return dict(op="get", t=t, k=key, v=codes(ask(g)))
    if k < .8:
        mode = rng.choice([(True, False)] * 4 + [(False, True)] * 5 + [(True, True), (False, False)])
        ks = list(range(1, nk + 1))
        rng.shuffle(ks)
        if rng.random() < .05:
            ks.pop()
        return dict(op="conv", t=t, data=[dict(k=x, v=codes(ask((t, x)))) for x in ks], norm=mode[0], hot=mode[1])
    if k < .85:
        return dict(op="len", t=t, k=key)
    if k < .9:
        return dict(op="keys", t=t)
    if k < .94:
        return dict(op="attr", t=t)
    if k < .97:
        return dict(op="tables")
    return dict(op="dict")


def train_scen(rng, id):
    n = rng.choice([1, 2, 3, 4, 5, 7, 10, 24])
    nk = rng.randint(1, 4)
    words = {k: some_words(rng, rng.choice([1, 2, 4, 8])) for k in range(1, nk + 1)}
    words = {k: [w for w in ws if w.strip("-_ ")] or ["a"] for k, ws in words.items()}
    cls = rng.choice([["good", "bad"], ["good"], ["A", "b", "C"]])
    rows = []
    for _ in range(n):
        req = rng.choice([1, 1, 2, 5])
        rows.append(dict(f=[dict(k=k, v=codes(rng.choice(words[k]))) for k in words], c=codes(rng.choice(cls)), req=req, cpu=req * rng.randint(0, 50)))
    lvl = rng.choice([0, 0, 1, 2])
    ops = [dict(op="gen", lvls=lvl), dict(op="len"), dict(op="classes"), dict(op="score"), dict(op="train", k=0, norm=False, hot=rng.random() < .3)]
    ops += [dict(op="train", k=k, norm=rng.random() < .4, hot=rng.random() < .3) for k in sorted({1, 2, 3, n, rng.randint(1, n)}) if k <= n]
    if rng.random() < .3:
        ops += [dict(op="gen", lvls=rng.choice([0, 1])), dict(op="train", k=0, norm=rng.random() < .5, hot=rng.random() < .3)]
    return scen(id, dict(type="train", keys=KEYS, rows=rows, ext=rng.choice(["", ".gz"])), ops, "trainset")


def maximal(ctx, scripts, lim):
    seqs = sorted({tuple(int(x) for x in re.findall(r"\d+", s)) for s in scripts})
    keep = [a for a, b in zip(seqs, seqs[1:] + [()]) if b[:len(a)] != a]
    ctx.mc[-1]["maximal_scripts"] = len(keep)
    if len(keep) > lim:
        keep = ctx.rng.sample(keep, lim)
    ctx.mc[-1]["replayed"] = len(keep)
    return keep


def table_check(ctx, n):
    rng = ctx.rng
    binary = executor(ctx)
    ins = lambda w, u: dict(op="insert", t=1, k=1, v=codes(w), unk=u)
    ops = [ins("b", True), ins("a", False), ins("ab", False), dict(op="gen"), dict(op="get", t=1, k=1, v=codes("b")), dict(op="close", t=1, k=1, v=codes("abc")),
           dict(op="conv", t=1, data=[dict(k=1, v=codes("bc"))], norm=False, hot=True)]
    m = dict(depth=6 if ctx.quick else 8, ops=ops)
    fn = ctx.path("table.json")
    json.dump(m, open(fn, "w"))
    keep = maximal(ctx, ctx.model_check("TableMC", {"MCCFG": fn}, "TableMC"), 1500 if ctx.quick else 10000)
    sc = [scen("m%d" % j, dict(type="table", tables=TABLES, keys=KEYS), [ops[i - 1] for i in t], "table") for j, t in enumerate(keep)]
    sc += [table_scen(rng, "h%d" % j) for j in range(n if ctx.quick else n * 10)]
    sc += [table_scen(rng, "b%d" % j, big=True) for j in range(3 if ctx.quick else 30)]
    sc += [train_scen(rng, "t%d" % j) for j in range(n // 2 if ctx.quick else n * 5)]
    tr = ctx.execute(binary, sc, "t")
    ctx.log("%d tables used" % len(sc))
    ctx.validate("TableTrace", sc, tr)
    ctx.log("answers judged")


# ------------------------------------------------------------- data sets
NF = 45                    # features of a raw record


def request(rng, n, names, kind=.0):
    k = rng.random()
    if k < kind:
        comps = rng.choice([["unknown"], ["store", "mc", "c"], ["store", "mc", "c", "p"], ["store", "user", "c", "p", "t", "f.root"], ["store", "MC", "c", "p", "t"],
                            ["mc", "store", "c", "p", "t", "f"], ["store", "datas", "c", "p", "t"], ["a"]])
    else:
        comps = ["store", rng.choice(["data", "mc", "mc"]), rng.choice(names), rng.choice(names), rng.choice(["AOD", "AODSIM", "RAW"]) if rng.random() < .6 else rng.choice(names)]
        comps += [rng.choice(names) for _ in range(rng.choice([0, 1, 3]))]
    path = "/" + "/".join(comps) if comps != ["unknown"] else "unknown"
    if rng.random() < .1 and comps != ["unknown"]:
        path = path.replace("/", "//", 1) + rng.choice(["", "/"])
    return dict(n=n, comps=comps, path=path, type="analysis" if rng.random() > kind else rng.choice(["production", "", "Analysis", "analysis "]), cpu=rng.choice([0, 1, rng.randint(0, 400)]),
                more=rng.random() < .1)


def requests_of(rng, n, first=1, kind=None):
    names = rng.choice([["p"], ["p", "q"], ["p", "q", "r", "P", "p-q"], ["1", "11", "111"], ["a", "a, b", "b", "b, a"], ["long" * 40 + x for x in "pq"]])
    kind = rng.choice([0, .1, .4]) if kind is None else kind
    return [request(rng, first + j, names, kind) for j in range(n)]


def usable(l):
    return [r for r in l if r["type"] == "analysis" and len(r["comps"]) >= 5 and r["comps"][1] in ("data", "mc")]


def cut(rng, l, k):
    at = sorted(rng.randint(0, len(l)) for _ in range(k - 1))
    return [l[a:b] for a, b in zip([0] + at, at + [len(l)])]


def a_date(rng):
    return rng.choice([(2018, rng.randint(1, 12), rng.randint(1, 28)), (rng.choice([2016, 2020, 2000]), 2, rng.randint(20, 29)), (rng.choice([2017, 2100, 1900]), 2, rng.randint(20, 28)),
                       (2018, 12, rng.randint(20, 31)), (rng.randint(2000, 2030), rng.choice([1, 3, 4, 6, 7, 10]), 30)])


def days_after(d, k):
    import datetime
    x = datetime.date(*d) + datetime.timedelta(days=k)
    return (x.year, x.month, x.day)


def conf_list(rng):
    l = []
    for k in ["master", "app_name", "spark.driver.memory", "spark.executor.memory", "spark.executor.cores", "spark.x"]:
        if rng.random() < .35:
            l.append(dict(k=k, v=rng.choice(["a", "b", "4", "2g"])))
    return l


def dataset_op(rng, quick=True):
    k = rng.random()
    if k < .2:
        return dict(op="pop", r=requests_of(rng, 1, rng.randint(1, 99), kind=rng.choice([0, .5]))[0], pickle=rng.random() < .4)
    if k < .3:
        return dict(op="raw", r=requests_of(rng, 1, rng.randint(1, 99), kind=rng.choice([0, .5]))[0], how=rng.choice(["", "pickle", "json"]))
    if k < .45:
        l = requests_of(rng, rng.choice([1, 2, 3, 5, 9]), kind=0)
        for r in l:
            r["comps"], r["path"] = l[0]["comps"], l[0]["path"]
        return dict(op="merge", l=l, how=rng.choice(["object", "dict", "load", "pickle"]), at=rng.randint(0, 4), plus=rng.choice(["add", "iadd"]), cls=rng.choice(["UNKNOWN", "good", "bad"]))
    if k < .65:
        stage = rng.choice(["raw", "featured", "test0"])
        n = rng.choice([1, 2, 5, 10, 30])
        l = requests_of(rng, n)
        batches = cut(rng, l, rng.randint(1, 6))
        how = rng.choice(["process", "spark", "task", "sched", "sched"])
        # an output without any record is not written
        if not usable(l):
            l = batches[0] = requests_of(rng, 1, 1000, kind=0)
        return dict(op="stage", stage=stage, batches=batches, how=how, par=rng.choice([1, 2, 3]), batch=rng.choice([1, 2, 3, 7, 100]), tokens=[], pick=picks(rng))
    if k < .8:
        n = rng.choice([0, 1, 2, 3, 6, 10, 50])
        return dict(op="batches", n=n, size=rng.choice([1, 2, 3, 5, max(1, n), n + 1]), how=rng.choice(["pipeline", "raw", "resource"]), cut=rng.randint(0, n))
    if k < .92:
        y, m, d = a_date(rng)
        return dict(op="window", y=y, m=m, d=d, size=rng.choice([0, 1, 2, 3, 7, 30, 70, 400]), step=rng.choice([0, 0, 1, 2, 3, 7]), next=rng.random() < .4)
    return dict(op="conf", first=conf_list(rng), then=conf_list(rng), over=rng.random() < .5)


def picks(rng):
    """What the processes do at the calls of the stage."""
    lazy = rng.choice([.1, .5, .9])
    return [-1 if rng.random() < lazy else rng.randint(0, 7) for _ in range(rng.choice([10, 40, 150]))]


def pipeline_op(rng):
    start, size = a_date(rng), rng.choice([1, 1, 2, 3, 4])
    source = rng.choice(["local", "local", "httpfs", "httpfs", "hdfs"])
    days, n = [], 1
    extra = rng.sample([-2, -1, size, size + 1], rng.choice([0, 1, 2]))
    for k in sorted(list(range(size)) + extra):
        m = rng.choice([1, 2, 5, 12])
        l = requests_of(rng, m, n)
        if not usable(l):
            l.append(requests_of(rng, 1, n + m, kind=0)[0])
        n += len(l)
        # only a server has more than one file a day
        l = cut(rng, l, rng.choice([1, 2, 3])) if source == "httpfs" else [l]
        l = [x for x in l if x]
        y, mo, d = days_after(start, k)
        days.append(dict(y=y, m=mo, d=d, l=l))
    return dict(op="pipeline", start=list(start), size=size, days=days, stages=rng.choice([1, 2, 3, 3, 3]), batch=rng.choice([2, 3, 5, 40]), save=rng.random() < .5 and source != "hdfs", source=source,
                spark=rng.random() < .4, par=rng.choice([1, 2, 5]))


def dataset_check(ctx, n):
    rng = ctx.rng
    binary = executor(ctx)
    m = dict(inputs=3 if ctx.quick else 4, par=3)
    fn = ctx.path("stage.json")
    json.dump(m, open(fn, "w"))
    scripts = ctx.model_check("StageMC", {"MCCFG": fn}, "StageMC")
    seqs = [tuple(re.findall(r"[A-Z]?\d+|[SLF]\b", s)) for s in scripts]
    ahead = {x[:-1] for x in seqs}
    seqs = sorted(x for x in set(seqs) if x not in ahead)
    ctx.mc[-1]["maximal_scripts"] = len(seqs)
    if len(seqs) > (600 if ctx.quick else 6000):
        seqs = rng.sample(seqs, 600 if ctx.quick else 6000)
    ctx.mc[-1]["replayed"] = len(seqs)
    sc = []
    cfg = dict(type="dataset", nf=NF)
    for j, t in enumerate(seqs):
        k, par = int(t[0]), int(t[1])
        sc.append(scen("m%d" % j, cfg, [dict(op="tasks", n=k, par=par, ms=[0] * k, tokens=list(t[2:]), pick=[], big=rng.choice([0, 0, 100]))], "dataset"))
    for j in range(n if ctx.quick else n * 10):
        k = rng.choice([1, 2, 5, 9])
        sc.append(scen("v%d" % j, cfg, [dict(op="tasks", n=k, par=rng.choice([1, 2, 3, 8]), ms=[0] * k, tokens=[], pick=picks(rng), big=0) for _ in range(5)], "dataset"))
    for j in range(n if ctx.quick else n * 10):
        sc.append(scen("h%d" % j, cfg, [dataset_op(rng) for _ in range(rng.choice([5, 12]))], "dataset"))
    for j in range(n // 4 if ctx.quick else n * 2):
        sc.append(scen("p%d" % j, cfg, [pipeline_op(rng)], "dataset"))
    for j in range(6 if ctx.quick else 60):
        k = rng.choice([6, 9, 15, 20])
        sc.append(scen("t%d" % j, cfg, [dict(op="tasks", n=k, par=rng.choice([1, 2, 4, 8]), ms=[rng.choice([0, 0, 1, 10, 40]) for _ in range(k)], tokens=[], pick=[], big=rng.choice([0, 2000]))], "dataset"))
    tr = ctx.execute(binary, sc, "d")
    ctx.log("%d histories executed" % len(sc))
    ctx.validate("DatasetTrace", sc, tr)
    ctx.log("answers judged")


# ------------------------------------------------------------- clients
NAMES = ["a", "b", "c", "data set", "x.json.gz"]


def client_op(rng, paths):
    fail = 0 if rng.random() < .88 else rng.choice([1, 1, 2, 3])
    k = rng.random()
    p = lambda: list(rng.choice(paths))
    if k < .12:
        return dict(op="mkdir", p=p(), fail=min(fail, 1))
    if k < .35:
        return dict(op="create", p=p(), c=rng.randint(0, 60), over=rng.random() < .4, how=rng.choice(["file", "file", "stream", "missing"] if rng.random() < .5 else ["file", "stream"]), fail=min(fail, 2))
    if k < .5:
        return dict(op="open", p=p(), chunk=rng.choice([0, 0, 1, 7, 1000]), fail=min(fail, 1))
    if k < .6:
        return dict(op="list", p=p()[:rng.randint(0, 2)], print=rng.random() < .2, fail=min(fail, 1))
    if k < .68:
        return dict(op="delete", p=p(), rec=rng.random() < .5, fail=min(fail, 1))
    n = rng.choice([0, 1, 2, 3, 5, 8, 20])
    l = [rng.randint(0, 30) for _ in range(n)]
    if k < .76:
        one = rng.random() < .4
        return dict(op="docs", l=l[:1] or [3] if one else l or [1], one=one, fail=min(fail, 1))
    if k < .92:
        return dict(op="put", l=l, bulk=rng.choice([0, 1, 2, 3, max(1, n - 1), max(1, n), n + 1]), at=rng.choice([0, 0, 0, 1, n // 2, n, n + 1]), fail=fail)
    if rng.random() < .5:
        return dict(op="get", l=l or [1], at=rng.choice([0, n - 1, -1, n, rng.randint(0, max(0, n - 1))]), a=NULL, b=NULL, s=NULL, fail=0)
    a, b = sorted([rng.randint(0, n + 1), rng.randint(0, n + 1)])
    return dict(op="get", l=l or [1], at=NULL, a=rng.choice([a, NULL]), b=b, s=rng.choice([NULL, 1, 2]), fail=0)


def apart(ops):
    """A path is used for a file or for a directory: the server of this check
    does not say what happens below a file."""
    files = [o["p"] for o in ops if o["op"] == "create"]
    return [o for o in ops if not any(o.get("p", [])[:len(f)] == f and (len(o["p"]) > len(f) or o["op"] == "mkdir") for f in files)]


def client_check(ctx, n):
    rng = ctx.rng
    binary = executor(ctx)
    mk = lambda *p: dict(op="mkdir", p=list(p), fail=0)
    cr = lambda p, c, over, fail=0, how="file": dict(op="create", p=p, c=c, over=over, how=how, fail=fail)
    ops = [mk("a"), cr(["a", "f"], 5, False), cr(["a", "f"], 9, True), cr(["a", "f"], 12, True, 2, "stream"), dict(op="open", p=["a", "f"], chunk=0, fail=0),
           dict(op="list", p=["a"], print=False, fail=0), dict(op="delete", p=["a"], rec=False, fail=0), dict(op="delete", p=["a"], rec=True, fail=0), dict(op="delete", p=["a", "f"], rec=True, fail=1),
           dict(op="put", l=[1, 2, 3], bulk=2, at=0, fail=0), dict(op="put", l=[3, 4], bulk=1, at=0, fail=2), dict(op="docs", l=[4, 1], one=False, fail=0)]
    m = dict(depth=5 if ctx.quick else 6, ops=ops)
    fn = ctx.path("client.json")
    json.dump(m, open(fn, "w"))
    keep = maximal(ctx, ctx.model_check("ClientMC", {"MCCFG": fn}, "ClientMC"), 1000 if ctx.quick else 8000)
    def cfg():
        auth = rng.choice([[], ["u", "secret"], ["u", "se:c:t"]])
        return dict(type="clients", bad=rng.choice([[500, 400], [403, 429], [404, 500], [503, 202]]), big=rng.choice([0, 0, 3, 1000]), auth=auth, sent=auth, user=rng.choice(["", "me"]), slash=rng.random() < .5, codes=[rng.choice([200, 201, 307]), rng.choice([200, 201])])
    sc = [scen("m%d" % j, cfg(), [ops[i - 1] for i in t], "clients") for j, t in enumerate(keep)]
    for j in range(n if ctx.quick else n * 10):
        paths = [[rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(rng.choice([2, 4, 8]))]
        sc.append(scen("h%d" % j, cfg(), apart([client_op(rng, paths) for _ in range(rng.choice([5, 15, 40]))]), "clients"))
    tr = ctx.execute(binary, sc, "c")
    ctx.log("%d histories executed" % len(sc))
    ctx.validate("ClientTrace", sc, tr)
    ctx.log("answers judged")


# ------------------------------------------------------------- results read back
EVENTS = ["ONFREE", "ONDAYEND", "ONK", "FORCEDCALL", "FREE"]
ALWAYS = ["date", "num req", "cache size", "read on hit data", "read on miss data", "read data", "written data"]
PERHAPS = ["num miss after delete", "bandwidth usage", "CPU efficiency", "hit rate", "deleted data", "size redirected", "avg free space", "std dev free space"]
OTHERS = ["num hit", "num added", "num deleted", "capacity", "Addition epsilon", "Action store"]


def lrow(e, f=-1, s=-100, nr=-1, dt=-1, t=0, cs=0, cc=0):
    return dict(t=t, e=e, cs=cs, cc=cc, f=f, s=s, nr=nr, dt=dt)


def made_log(rng):
    """A log as a simulation may write it: rounds, with or without actions,
    requests between them, rounds one upon the other."""
    n, nf = rng.choice([0, 1, 2, 4, 7, 12]), rng.choice([2, 3, 6, 12])
    size = {f: rng.choice([100, 250, 12345, 1, 99]) * rng.randint(1, 9) for f in range(nf)}
    rows, t = [], 0
    row = lambda e, f: rows.append(lrow(e, f, size[f], rng.randint(0, 9), rng.choice([0, 1, 5, 2 ** 20, 2 ** 30 - 1]), t, rng.randint(0, 99999), rng.randint(0, 10000)))
    def requests(k):
        nonlocal t
        for _ in range(k):
            t += rng.choice([0, 1, 1, 60])
            f = rng.randrange(nf)
            e = rng.choice(["MISS", "MISS", "HIT"])
            rows.append(lrow(e, f, t=t, cs=rng.randint(0, 99999)))
            if e == "MISS":
                x = rng.random()
                if rng.random() < .15:
                    # an eviction makes room first
                    if rng.random() < .6:
                        rows.append(lrow(rng.choice(EVENTS), t=t, cs=rng.randint(0, 99999), cc=rng.randint(0, 10000)))
                    for g in rng.sample(range(nf), rng.choice([1, 1, min(2, nf)])):
                        row(rng.choice(["DELETE", "DELETE", "KEEP"]), g)
                if x < .5:
                    row("ADD", f)
                elif x < .8:
                    row("SKIP", f)
                elif x < .9:
                    rows.append(lrow("REDIRECT", f, size[f], t=t))
    if rng.random() < .7:
        requests(rng.randint(0, 5))
    for _ in range(n):
        if rng.random() < .9:
            rows.append(lrow(rng.choice(EVENTS), t=t, cs=rng.randint(0, 99999), cc=rng.randint(0, 10000)))
        for f in rng.sample(range(nf), rng.choice([0, 1, min(2, nf), nf // 2, nf])):
            row(rng.choice(["DELETE", "DELETE", "KEEP"]), f)
        if rows and rng.random() < .1 and rows[-1]["e"] in ("DELETE", "KEEP"):
            # a file deleted twice in a round
            row("DELETE", rows[-1]["f"])
        requests(rng.choice([0, 1, 2, 4, 9]) if rng.random() < .85 else 0)
    return rows


def component(rng, k):
    """A folder above a file of results (r<k>x is there once)."""
    size = "%d%s" % (rng.choice([1, 10, 100]), rng.choice("TG"))
    x = rng.random()
    if x < .3:
        a = rng.choice(["lru", "lfu", "sizeSmall", "sizeBig"])
        return dict(k="alg", a=a, name="%s_%s_10Gbit_%s" % (a, size, rng.choice(["it", "us"])))
    if x < .45:
        a = rng.choice(["FuncAdditive", "FuncMultiplicative", "FuncWeightedRequests"])
        return dict(k="weight", a=a, name="weightFunLRU_%s_%.2f_%.2f_%.2f" % (a, rng.choice([1, .25]), rng.choice([0, 1]), rng.choice([1, 3])))
    if x < .7:
        a = rng.choice(["SCDL", "SCDL2-onK", "SCDL2-onFree", "SCDL2-none", ""])
        # without a type that is known it is just aiRL
        return dict(k="ai", a=a, name="aiRL_%s_%s_10Gbit_it" % (a or rng.choice(["other", "SCDLx", "noSCDL2-onK", "xSCDL"]), size))
    n = rng.choice(["run_full_normal", "slow", "fast", "no_size_feature", "it", "epsilon_test", "random_lru_100T_10Gbit_it", "lruDatasetVerifier_1T_10Gbit_us", "2018", "100T", "no_num_req_feature", "my_feature", "no_limits", "random_cache_test"])
    return dict(k="plain", a="", name=n)


def result_row(rng, c, date):
    p = lambda: rng.choice([1, 2, 4, 8, 16])
    r = p()
    return dict(date=date, n=rng.randint(0, 99), c=c, h=rng.randint(0, 2 * r), r=r, m=p(), w=rng.randint(0, 16), d=rng.randint(0, 8), x=rng.randint(0, 2 * c), a=rng.randint(0, c), s=rng.randint(0, c),
                k=rng.choice([0, 0, 3, 7]), b=rng.randint(0, 100), e=rng.randint(0, 100), g=rng.randint(0, 100))


def probe_cfg(rng, logs=None, many=None):
    folders = rng.sample(["outA", "outB", "results_2018", "x.y"], rng.choice([1, 1, 2, 3]))
    res, dirs = [], set()
    for k in range(1, (many or rng.choice([1, 2, 3, 5, 8, 14])) + 1):
        comps = [component(rng, k) for _ in range(rng.choice([0, 1, 2, 3]))]
        comps.insert(rng.randint(0, len(comps)), dict(k="plain", a="", name="r%dx" % k))
        cols = ALWAYS[1:] + [c for c in PERHAPS if rng.random() < .85] + [c for c in OTHERS if rng.random() < .3]
        rng.shuffle(cols)
        c = rng.choice([1, 2, 4, 8, 16])
        start = (rng.choice([2018, 2020]), rng.randint(1, 12), rng.randint(1, 28))
        days = [days_after(start, j) for j in range(rng.choice([1, 2, 4]))]
        rows = [result_row(rng, c, y * 10000 + m * 100 + d) for y, m, d in days]
        if res and rng.random() < .2:
            # the same figures as another one, perhaps but for one of them
            rows = [dict(w) for w in rng.choice(res)["rows"]]
            rows[0][rng.choice("hwdkbe")] += rng.choice([0, 1])
            rows[0]["h"] = min(rows[0]["h"], 2 * rows[0]["r"])
        log = made_log(rng) if logs is None else logs.pop() if logs else None
        haslog = log is not None and (logs is not None or rng.random() < .8)
        res.append(dict(fold=rng.randint(1, len(folders)), comps=comps, rows=rows, cols=["date"] + cols, haslog=haslog, log=log if haslog else []))
    return dict(type="probe", folders=folders, results=res)


def probe_ops(rng, cfg, n, logs=False):
    res = cfg["results"]
    fold = list(range(1, len(cfg["folders"]) + 1))
    ops, now = [], []
    def start():
        nonlocal now
        f = fold if logs or rng.random() < .7 else rng.sample(fold, rng.randint(1, len(fold)))
        ops.append(dict(op="open", fold=f, slash=rng.random() < .3))
        now = [r for r, x in enumerate(res, 1) if x["fold"] in f]
    start()
    for _ in range(n):
        x = rng.random()
        if not now or x < .06:
            start()
            continue
        words = ["lru", "lfu", "aiRL", "SCDL", "SCDL2-onK", "sizeBig", "it", "slow", "nothing", "r%dx" % rng.choice(now), cfg["folders"][0], "weightFunLRU_FuncAdditive"]
        r = rng.choice(now)
        mine = [c["a"] or c["name"] for c in res[r - 1]["comps"]] + words
        fl = lambda: rng.sample(sorted(set(mine if rng.random() < .6 else words)), rng.choice([0, 0, 1, 1, 2]))
        some = lambda: rng.sample(now, rng.randint(1, len(now)))
        if x < .25 and not logs:
            ops.append(dict(op="df", r=r, all=fl(), any=fl()))
        elif x < .4 and not logs:
            ops.append(dict(op="log", r=r, all=fl(), any=fl()))
        elif x < .7 or logs:
            ops.append(dict(op="report", all=logs or rng.random() < .5, rs=[r for r in some() if res[r - 1]["haslog"]], gen=rng.random() < .5, target=rng.choice(["AFTERDELETE", "MISSFREQ"]), prefix=rng.random() < .5))
        elif x < .93:
            rs = some()
            ops.append(dict(op="table", rs=rs, top=rng.choice([0, 0, 1, 2, 10, 11, len(rs), max(1, len(rs) - 1)]), ext=rng.random() < .5, roh=rng.random() < .5, prefix=rng.random() < .5))
        else:
            rs = [r for r in some() if set(PERHAPS[:3] + ["deleted data"]) <= set(res[r - 1]["cols"])]
            if rs:
                ops.append(dict(op="metrics", rs=rs))
    return ops


def probe_check(ctx, n, learned):
    """learned: scenarios whose logs are written by the simulator itself."""
    rng = ctx.rng
    binary = ctx.build()
    tr = ctx.execute(binary, learned, "g")
    real = []
    for s in learned:
        for r in tr[s["id"]]:
            if r.get("log") and not r.get("logbad"):
                real.append([dict(t=w["t"], e=w["e"], cs=w["cs"] * 100, cc=max(0, w["cc"]), f=w["f"], s=w["s"] * 100, nr=w["nr"], dt=min(w["dt"], 2 ** 30)) for w in r["log"][:400]])
    binary = executor(ctx)
    rows = [lrow("ONK", t=7, cs=500, cc=5000), lrow("FREE", t=8, cs=700, cc=7000)] + [lrow(e, f, 100 * f if e != "MISS" else -100, f + 1 if e != "MISS" else -1, f, 9) for e, f in
            (("DELETE", 1), ("DELETE", 2), ("KEEP", 1), ("MISS", 1), ("MISS", 2), ("SKIP", 1))]
    m = dict(depth=5 if ctx.quick else 6, rows=rows)
    fn = ctx.path("probe.json")
    json.dump(m, open(fn, "w"))
    keep = maximal(ctx, ctx.model_check("ProbeMC", {"MCCFG": fn}, "ProbeMC"), 6000 if ctx.quick else 30000)
    logs = [[rows[i - 1] for i in t] for t in keep]
    sc = []
    def some(tag, logs, each):
        logs = list(logs)
        while logs:
            c = probe_cfg(rng, [logs.pop() for _ in range(min(each, len(logs)))], many=each)
            sc.append(scen("%s%d" % (tag, len(sc)), c, probe_ops(rng, c, 0, True) + [dict(op="report", all=True, rs=[], gen=g, target=t, prefix=False) for g, t in ((rng.random() < .5, "AFTERDELETE"), (rng.random() < .5, "MISSFREQ"))], "probe"))
    some("m", logs, 8)
    some("g", real, 4)
    for j in range(n if ctx.quick else n * 10):
        c = probe_cfg(rng)
        sc.append(scen("h%d" % j, c, probe_ops(rng, c, rng.choice([4, 10, 20])), "probe"))
    tr = ctx.execute(binary, sc, "r")
    ctx.log("%d histories executed, %d logs of the simulator" % (len(sc), len(real)))
    ctx.validate("ProbeTrace", sc, tr)
    ctx.log("answers judged")


# ------------------------------------------------ training data of tables
def simdata_col(rng, n):
    k = rng.choice(["int", "int", "float", "float", "bool", "word", "num"])
    most = {"bool": 1}.get(k, rng.choice([2, 5, 12, 99]))
    lo = 0 if k in ("bool", "word") else 1 if k == "num" else rng.choice([0, -5])
    return dict(kind=k, v=[rng.randint(lo, most) for _ in range(n)])


def simdata_map(rng, cols, cs):
    """cs: columns of one kind."""
    k = cols[cs[0] - 1]["kind"]
    o = dict(op="map", cols=cs, unk=rng.choice([0, 1]), say=rng.random() < .3, sort=rng.random() < .6, buckets=[], open=False, text=k == "int" and rng.random() < .2)
    if k in ("int", "float") and not o["text"] and rng.random() < .5:
        all_ = sorted({v for c in cs for v in cols[c - 1]["v"]} | {rng.randint(-3, 20) for _ in range(3)})
        o["buckets"] = sorted(rng.sample(all_, rng.randint(1, min(4, len(all_)))))
        o["open"] = rng.random() < .6
    return o


def simdata_data(rng, cols, mapped):
    num = [c for c, x in enumerate(cols, 1) if c in mapped or x["kind"] in ("int", "float", "bool")]
    if not num:
        return None
    cs = rng.sample(num, rng.randint(1, len(num)))
    last = len(cols) in num
    return dict(op="data", cols=cs, label=0 if last and rng.random() < .4 else rng.choice(num), cnn=rng.random() < .3)


def simdata_scen(rng, id, big=False):
    n = rng.choice([1, 2, 3, 5, 10, 20]) if not big else 300
    cols = [simdata_col(rng, n) for _ in range(rng.randint(2, 6))]
    if rng.random() < .5:
        cols.append(dict(cols[0], v=[rng.choice(cols[0]["v"]) for _ in range(n)]))
    ops, mapped, made = [], {}, False
    for _ in range(rng.choice([3, 6, 12])):
        k = rng.random()
        if k < .4 or not mapped:
            kind = rng.choice(cols)["kind"]
            of = [c for c, x in enumerate(cols, 1) if x["kind"] == kind]
            cs = rng.sample(of, rng.randint(1, len(of)))
            o = simdata_map(rng, cols, cs)
            ops.append(o)
            mapped.update((c, o["text"]) for c in cs)
        elif k < .5:
            num = [c for c, x in enumerate(cols, 1) if x["kind"] in ("int", "float")]
            if num:
                ops.append(dict(op="modify", c=rng.choice(num), add=rng.choice([-2, -1, 1, 1, 3])))
        elif k < .6 and made:
            ops.append(dict(op="again", named=rng.random() < .5))
        else:
            o = simdata_data(rng, cols, mapped)
            if o:
                ops.append(o)
                made = True
    # (what is read back is what was made last: none if nothing was)
    seen = False
    out = []
    for o in ops:
        if o["op"] == "data":
            seen = True
        if o["op"] == "again" and not seen:
            continue
        out.append(o)
    return scen(id, dict(type="simdata", cols=cols, **rng.choice([dict(file="feather", ext="gz"), dict(file="feather", ext="gzip"), dict(file="pickle", ext="gz")])), out, "simdata")


def simdata_check(ctx, n):
    rng = ctx.rng
    binary = executor(ctx)
    cols = [dict(kind="int", v=[3, 1, 7, 1]), dict(kind="int", v=[2, 2, 5, 9]), dict(kind="word", v=[1, 0, 2, 1])]
    mp = lambda cs, **k: dict(dict(op="map", cols=cs, unk=0, say=False, sort=True, buckets=[], open=False, text=False), **k)
    ops = [mp([1]), mp([1, 2], unk=1), mp([1, 2], buckets=[1, 4], open=True), mp([2], buckets=[3, 9]), mp([1], unk=1, buckets=[2], open=True), mp([3]), mp([3], unk=1),
           dict(op="modify", c=1, add=1), dict(op="data", cols=[1, 2], label=1, cnn=False), dict(op="data", cols=[2, 1], label=2, cnn=True)]
    m = dict(cols=cols, depth=4 if ctx.quick else 5, ops=ops)
    fn = ctx.path("simdata.json")
    json.dump(m, open(fn, "w"))
    keep = maximal(ctx, ctx.model_check("SimDataMC", {"MCCFG": fn}, "SimDataMC"), 1000 if ctx.quick else 10000)
    cfg = dict(type="simdata", cols=cols, file="feather", ext="gz")
    sc = [scen("m%d" % j, cfg, [ops[i - 1] for i in t] + [dict(op="data", cols=[2, 1] if j % 2 else [1, 2], label=1 + j % 2, cnn=False)], "simdata") for j, t in enumerate(keep)]
    sc += [simdata_scen(rng, "h%d" % j) for j in range(n if ctx.quick else n * 10)]
    sc += [simdata_scen(rng, "b%d" % j, big=True) for j in range(3 if ctx.quick else 30)]
    tr = ctx.execute(binary, sc, "d")
    ctx.log("%d tables converted" % len(sc))
    ctx.validate("SimDataTrace", sc, tr)
    ctx.log("answers judged")

"""Scenarios for the caches and the queues, and the checks built on them."""
import json, re
from lib import CheckError

ALL = ["lru", "lfu", "sizeBig", "sizeSmall", "random", "random_lru", "lruDatasetVerifier", "weightFunLRU", "infinite", "aiNN"]
PLAIN = ["lru", "lfu", "sizeBig", "sizeSmall"]
DAY = 86400


def base_cfg(typ, **kw):
    c = dict(type=typ, max=16, u=1, red=False, bwm=1000, wm=False, hi=95, lo=75, maxday=10 * DAY, step=10 * DAY,
             seed=42, log=False, region="", wf="FuncAdditive", alpha=1, beta=1, gamma=1, ds=[], coins=0)
    c.update(kw)
    return c


def rand_cfg(rng, typ, **kw):
    u = rng.choice([1, 1, 1, 4])
    c = base_cfg(typ, u=u, max=rng.choice([1, 3, 5, 8, 8, 16, 16, 20, 32, 50, 64, 100]), seed=rng.randrange(1, 10 ** 6),
                 region=rng.choice(["", "it", "us", "xx"]))
    if typ == "infinite":
        c["max"] = rng.choice([1, 4])
    if typ == "weightFunLRU":
        rand_weights(rng, c)
    if typ in ("random", "random_lru"):
        c["coins"] = 400
    hard_numbers(rng, c)
    c.update(kw)
    return c


def hard_numbers(rng, c):
    """names which need 64 bits; seeds which need them or are negative"""
    c["wide"] = rng.random() < .3
    if rng.random() < .4:
        c["seedhi"] = rng.choice([1, -1, 7, -3, 1 << 20, -(1 << 20)])


def enlarge(rng, c, ops):
    """The same history with sizes which need more than 24 bits."""
    tot = sum(o["s"] for o in ops if o["op"] == "get") + max([o["s"] for o in ops if o["op"] == "get"] + [1])
    k = min(20 * 10 ** 6 // c["max"] if c["wm"] or c["type"] == "infinite" else 10 ** 8 // c["max"], 10 ** 9 // tot)
    if k < 1000:
        return ops
    if c["wm"] or any(o.get("pct") for o in ops):
        k = 1 << (k.bit_length() - 1)       # the same rounding as the small history
    else:
        k -= rng.randint(0, k // 50)
    c["max"] *= k
    out, odd = [], {}
    for o in ops:
        o = dict(o)
        if o["op"] == "get":
            j = 0 if c["wm"] else odd.setdefault((o["f"], o["s"]), rng.choice([0, 0, 1, 1, 2, rng.randint(0, k // 2)]))
            o["s"] = o["s"] * k - j
        elif o["op"] == "free" and not o["pct"]:
            o["amt"] = o["amt"] * k - (rng.choice([0, 1, 2]) if o["amt"] else 0)
        out.append(o)
    return out


def rand_weights(rng, c):
    c["wf"] = rng.choice(["FuncAdditive", "FuncAdditive", "FuncAdditiveExp", "FuncMultiplicative"])
    if c["wf"] == "FuncAdditive":
        c["alpha"], c["beta"], c["gamma"] = rng.choice([0, 1, 2, -1, 5]), rng.choice([0, 1, 3, -1]), rng.choice([0, 1, 2, -1])
    else:
        c["u"] = 1
        c["alpha"], c["beta"], c["gamma"] = rng.choice([0, 1, 2]), rng.choice([0, 1]), rng.choice([0, 1])


def file_ids(rng, n):
    k = rng.random()
    if k < 0.5:
        return list(range(1, n + 1))
    if k < 0.8:
        return list(range(0, n))
    return rng.sample(range(0, 10 ** 9), n)


def file_sizes(rng, files, mx):
    mode = rng.choice(["small", "mixed", "unit", "big", "equal", "half"])
    out = {}
    for f in files:
        if mode == "small":
            s = rng.randint(1, max(1, mx // 4))
        elif mode == "mixed":
            s = rng.choice([1, 1, max(1, mx // 8), max(1, mx // 3), max(1, mx // 2), mx, mx + 1])
        elif mode == "unit":
            s = rng.choice([1, 2])
        elif mode == "big":
            s = rng.randint(max(1, mx // 2), mx + 2)
        elif mode == "half":
            s = rng.randint(1, max(1, mx // 2))
        else:
            s = max(1, mx // 3)
        out[f] = s
    return out


class Gen:
    """A random history: picks files with a skewed popularity."""

    def __init__(self, rng, cfg, nfiles, tstep=None, sizes=None, maxsize=None):
        self.rng, self.cfg = rng, cfg
        self.files = file_ids(rng, nfiles)
        self.sizes = sizes or file_sizes(rng, self.files, maxsize or min(cfg["max"], 10 ** 6))
        self.t = rng.choice([0, 0, 1000, rng.randint(0, 10 ** 6)])
        self.tstep = tstep or (lambda: rng.choice([0, 0, 1, 60, 3600, 7200, 20000]))
        self.hot = rng.sample(self.files, max(1, nfiles // 3))
        self.skew = rng.choice([0.2, 0.5, 0.8])
        if cfg["type"] == "lruDatasetVerifier" and not cfg["ds"]:
            cfg["ds"] = sorted(rng.sample(self.files, rng.randint(0, len(self.files)))) + ([7777777] if rng.random() < .3 else [])

    def get(self, f=None, s=None):
        rng = self.rng
        if f is None:
            f = rng.choice(self.hot) if rng.random() < self.skew else rng.choice(self.files)
        d = self.tstep()
        self.t += d if self.t + d >= 0 else 0
        return dict(op="get", f=f, s=self.sizes[f] if s is None else s, p=rng.choice([0, 0, 1, 1, 2]),
                    c=rng.choice([0, 1, 40, 100, 399, 400, rng.randint(0, 400)]), t=self.t,
                    site=rng.randint(0, 20), user=rng.randint(0, 5), ft=rng.randint(0, 12))

    def scan(self):
        """the files once each, in order"""
        return [self.get(f) for f in self.files]

    def resize(self):
        """after the files have been cleared their sizes may be others"""
        self.sizes = file_sizes(self.rng, self.files, min(self.cfg["max"], 10 ** 6))

    def history(self, n, other=(), p_other=0.1):
        ops = []
        while len(ops) < n:
            r = self.rng.random()
            if other and r < p_other:
                o = self.rng.choice(other)
                if o == "free":
                    ops.append(dict(op="free", amt=self.rng.choice([0, 1, 2, self.cfg["max"] // 2, self.cfg["max"], 3 * self.cfg["max"]]), pct=False))
                else:
                    ops.append(dict(op=o))
                    if o in ("clearFiles", "clear") and self.rng.random() < .5:
                        self.resize()
            elif r > 0.98:
                ops += self.scan()
            elif r > 0.95:
                f = self.rng.choice(self.files)
                ops += [self.get(f) for _ in range(self.rng.randint(2, 6))]
            else:
                ops.append(self.get())
        return ops


def scen(id, cfg, ops, kind="cache"):
    return dict(id=id, kind=kind, cfg=cfg, ops=ops)


def scripts_to_scen(scripts, m, prefix, rng, limit):
    """TLC prints <<configuration, <<operation, ...>>>>: build the scenarios."""
    seqs = []
    for s in scripts:
        nums = [int(x) for x in re.findall(r"-?\d+", s)]
        seqs.append((nums[0], tuple(nums[1:])))
    # a script which is the beginning of another one adds nothing
    seqs = sorted(set(seqs))
    keep = [a for a, b in zip(seqs, seqs[1:] + [(None, ())]) if not (a[0] == b[0] and b[1][:len(a[1])] == a[1])]
    tot = len(keep)
    if len(keep) > limit:
        keep = rng.sample(keep, limit)
    out = []
    for n, (c, idx) in enumerate(keep):
        clock, ops = 0, []
        for i in idx:
            o = dict(m["ops"][i - 1])
            if o["op"] == "get":
                clock += o.pop("dt")
                o["t"] = clock
            ops.append(o)
        ops += m.get("tail", [])
        out.append(scen("%s%d" % (prefix, n), dict(m["cfgs"][c - 1]), ops))
    return out, tot


def mop(f, s, dt=0, p=1, c=0):
    return dict(op="get", f=f, s=s, dt=dt, p=p, c=c, site=1, user=1, ft=1)


def strip_st(r):
    if "obs" in r and r["obs"].get("st"):
        r = dict(r)
        r["obs"] = dict(r["obs"], st=[])
    return r


def cache_check(ctx, models, scenarios, strip=None, limit=1500):
    """The common procedure: explore the models, replay their transitions and
    the random histories on the real caches, judge every step with TLC."""
    binary = ctx.build()
    ctx.log("executor built")
    allsc = []
    for k, m in enumerate(models):
        fn = ctx.path("mc%d.json" % k)
        json.dump(m, open(fn, "w"))
        scripts = ctx.model_check("CacheMC", {"MCCFG": fn}, "CacheMC[%s]" % m.get("name", k))
        sc, tot = scripts_to_scen(scripts, m, "m%d_" % k, ctx.rng, limit)
        ctx.mc[-1]["replayed"] = len(sc)
        ctx.mc[-1]["maximal_scripts"] = tot
        allsc += sc
    allsc += scenarios
    traces = ctx.execute(binary, allsc, "x")
    ctx.log("%d scenarios executed" % len(allsc))
    ctx.validate("CacheTrace", allsc, traces, strip=strip)
    ctx.log("traces judged")


# ---------------------------------------------------------------- queues
def queue_scen(rng, id, typ, n, nf):
    ops, inq = [], []
    keys = rng.choice([2, 3, 6])
    mono = rng.random() < .3
    cnt = {}
    files = rng.sample(range(0, 60), nf)
    wide = rng.random() < .3
    def key(f):
        if mono:
            cnt[f] = cnt.get(f, 0) + 1
            return cnt[f]
        return rng.randint(1, keys)
    def rec(op, f):
        k = key(f)
        return dict(op=op, f=f, s=k if "Size" in typ else rng.randint(1, 4), fr=k if typ == "LFU" else rng.randint(1, 3),
                    w=(k - 2) if typ == "Weighted" else rng.randint(0, 3))
    sim = []   # membership is followed from the answers only for the choice of operations
    for _ in range(n):
        r = rng.random()
        out = [f for f in files if f not in sim]
        if (r < .35 or not sim) and out:
            f = rng.choice(out)
            ops.append(rec("insert", f)); sim.append(f)
        elif r < .7 and sim:
            ops.append(rec("update", rng.choice(sim)))
        elif r < .85 and sim:
            l = rng.sample(sim, min(len(sim), rng.choice([1, 1, 1, 2, 3])))
            ops.append(dict(op="remove", l=l)); sim = [f for f in sim if f not in l]
        elif r < .97:
            ops.append(dict(op=rng.choice(["up2size", "best"]), s=rng.randint(1, 12)))
        elif sim:
            ops.append(dict(op="reinit")); sim = []
    return dict(id=id, kind="queue", cfg=dict(type=typ, wide=wide), ops=ops)


def queue_evict_scen(rng, id, typ, rounds, nf):
    """fill, shuffle by updates, evict some: which files go is not known here, so
    every round uses new files and never touches those of the rounds before"""
    ops = []
    nxt = 0
    for _ in range(rounds):
        fs = list(range(nxt, min(nxt + nf, 64)))
        nxt += nf
        if not fs:
            break
        def rec(op, f):
            return dict(op=op, f=f, s=rng.randint(1, 4), fr=rng.randint(1, 4), w=rng.randint(-2, 3))
        for f in fs:
            ops.append(rec("insert", f))
        for _ in range(rng.randint(0, 2 * nf)):
            ops.append(rec("update", rng.choice(fs)))
        rem = rng.sample(fs, rng.randint(0, len(fs) // 2))
        for f in rem:
            ops.append(dict(op="remove", l=[f]))
        for _ in range(rng.randint(1, 3)):
            k = rng.random()
            ops.append(dict(op="evict", s=rng.randint(1, 9)) if k < .6 else dict(op="removeWorst", n=rng.randint(0, 5)) if k < .8 else dict(op="best"))
    return dict(id=id, kind="queue", cfg=dict(type=typ, wide=rng.random() < .3), ops=ops)


def queue_check(ctx, binary, kinds):
    """kinds: [(queue type, order kind)]"""
    rng = ctx.rng
    allsc = []
    for typ, kind in kinds:
        depth = 5 if ctx.quick else 6
        if kind != "none":
            scripts = ctx.model_check("QueueMC", {"KIND": kind, "QTYPE": typ, "DEPTH": depth, "NF": 3}, "QueueMC[%s]" % typ)
            ops = [json.loads(s) for s in scripts]
            strs = sorted((json.dumps(o)[:-1] for o in ops))
            keep = [json.loads(a + "]") for a, b in zip(strs, strs[1:] + [""]) if not b.startswith(a)]
            lim = 1500 if ctx.quick else 20000
            if len(keep) > lim:
                keep = rng.sample(keep, lim)
            ctx.mc[-1]["replayed"] = len(keep)
            for n, o in enumerate(keep):
                allsc.append(dict(id="q%s%d" % (typ, n), kind="queue", cfg=dict(type=typ), ops=o))
        k = 60 if ctx.quick else 600
        for n in range(k):
            allsc.append(queue_scen(rng, "r%s%d" % (typ, n), typ, rng.choice([30, 80, 150]), rng.choice([3, 6, 12, 30])))
            allsc.append(queue_evict_scen(rng, "e%s%d" % (typ, n), typ, rng.randint(2, 8), rng.choice([3, 5, 9])))
    traces = ctx.execute(binary, allsc, "q")
    ctx.log("%d queue scenarios executed" % len(allsc))
    ctx.validate("QueueTrace", allsc, traces)
    ctx.log("queue traces judged")

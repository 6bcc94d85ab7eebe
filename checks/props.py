"""One function per property: which models, which histories, which judge."""
import copy, json, re
from lib import CheckError
from cachegen import *
from simgen import *
from agentgen import agent_check, map_check
from aigen import ai_check, ai_sim_check, ai_cmd_check, learn_check, learn_history
from pygen import datafile_check, avrofile_check, simdata_check, pycache_check, table_check, dataset_check, client_check, probe_check
from cmdgen import cmd_check, cmd_scen, default_scen

CHECKS = {}

ORDERED = ["lru", "lfu", "sizeBig", "sizeSmall", "random_lru", "lruDatasetVerifier", "weightFunLRU", "aiNN"]
FINITE = ORDERED + ["random"]
CLEARS = ("clearFiles", "clearStats", "clear")


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def small_cfgs(types, mx=4, **kw):
    return [base_cfg(t, max=mx, **kw) for t in types]


FILES3 = [mop(1, 1), mop(2, 2), mop(3, 3), mop(4, 1)]
FREE2 = dict(op="free", amt=2, pct=False)
CLEAR_OPS = [dict(op=o) for o in CLEARS]


def mc(ctx, name, cfgs, ops, view, quick=5, deep=7):
    return dict(name=name, cfgs=cfgs, ops=ops, depth=quick if ctx.quick else deep, view=view)


def histories(ctx, types, n, lens=(30, 60, 120), other=("free",) + CLEARS, p_other=0.08, nfiles=(3, 5, 8, 15),
              cfg=None, tag="h", tstep=None, small=False, each=None, fix_sizes=None, big=.15):
    """n random histories (more in the thorough tier), types in turn"""
    rng = ctx.rng
    out = []
    for k in range(n if ctx.quick else n * 10):
        typ = types[k % len(types)]
        c = rand_cfg(rng, typ)
        if cfg:
            cfg(c, k)
        nf = rng.choice(nfiles)
        g = Gen(rng, c, nf, tstep=tstep(rng) if tstep else None)
        if small:
            g.sizes = {f: min(s, c["max"]) for f, s in g.sizes.items()}
            g.resize = lambda g=g, c=c: g.sizes.update({f: rng.randint(1, c["max"]) for f in g.files})
        if fix_sizes:
            fix_sizes(g, c)
        ops = g.history(rng.choice(lens), other, p_other)
        if each:
            ops = each(rng, g, ops)
        if rng.random() < big and c["u"] == 1 and not c["red"] and c["type"] != "weightFunLRU":
            ops = enlarge(rng, c, ops)
        out.append(scen("%s%d" % (tag, k), c, ops))
    return out


def long_ones(ctx, types, n=2, lens=(700,), nfiles=(90,), each=None):
    """few long histories with many files"""
    rng = ctx.rng
    def cfg(c, k):
        c.update(max=rng.choice([64, 100, 200]), u=1)
        if rng.random() < .3 and c["type"] not in ("random", "infinite"):
            wm_cfg(rng, c, 1)
            c["max"] = 128
    return histories(ctx, rng.sample(types, n), n, lens=lens, nfiles=nfiles, other=("free", "clearStats", "clearFiles"), p_other=.01, tag="X", cfg=cfg, each=each)


def insert_ops(ops, rng, p, make):
    out = []
    for o in ops:
        out.append(o)
        if rng.random() < p:
            out += make()
    return out


def wm_cfg(rng, c, p=0.5):
    if rng.random() < p:
        c["wm"] = True
        c["max"] = rng.choice([8, 16, 32, 64])
        c["hi"], c["lo"] = rng.choice([(95, 75), (90, 50), (75, 50), (50, 25), (100, 75), (80, 10), (60, 59), (95, 0)])


def red_cfg(rng, c, p=0.5):
    """sizes in thousands of MB, so that a small bandwidth can be used up"""
    if rng.random() < p:
        c["red"] = True
        c["u"] = rng.choice([1, 1, 1, 4])
        c["bwm"] = rng.choice([1, 1, 2, 4, 8])
        c["max"] = c["u"] * rng.choice([4000, 8192, 16384])


def red_sizes(g, c):
    rng = g.rng
    if c["red"]:
        base = rng.choice([540, 540, 1080, 500, 270])
        odd = lambda: rng.randrange(c["u"]) if rng.random() < .4 else 0
        mk = lambda: c["u"] * base * rng.choice([1, 1, 2, 3]) + odd() if rng.random() < .8 else rng.randint(1, c["max"] + 10)
        g.sizes = {f: mk() for f in g.files}
        g.resize = lambda: g.sizes.update({f: mk() for f in g.files})


def order_check(ctx, types, queues):
    mt = [t for t in types if t in ("lru", "lfu", "sizeBig", "sizeSmall")]
    models = [mc(ctx, "order", small_cfgs(mt), FILES3 + [mop(5, 2), FREE2], ["q", "fr"])]
    sc = histories(ctx, types, 120)
    sc += histories(ctx, types, 4, lens=(400, 1000), nfiles=(50, 120), other=("free",), p_other=.02, tag="L",
                    cfg=lambda c, k: c.update(max=100, u=1))
    # hundreds of stored files
    sc += histories(ctx, types, 3, lens=(700,), nfiles=(250,), other=("free",), p_other=.003, tag="M", big=0,
                    cfg=lambda c, k: c.update(max=ctx.rng.choice([150, 300, 400]), u=1),
                    fix_sizes=lambda g, c: g.sizes.update({f: ctx.rng.choice([1, 1, 1, 2, 3]) for f in g.files}))
    # the order in front of the watermark is an order as well
    sc += histories(ctx, types, 20, tag="w", cfg=lambda c, k: wm_cfg(ctx.rng, c, 1))
    binary = ctx.build()
    queue_check(ctx, binary, queues)
    cache_check(ctx, models, sc, limit=1200 if ctx.quick else 10000)


@check("C01")
def c01(ctx):
    order_check(ctx, ["lru", "random_lru", "lruDatasetVerifier", "weightFunLRU", "aiNN"], [("LRU", "recency")])


@check("C02")
def c02(ctx):
    order_check(ctx, ["lfu"], [("LFU", "frequency")])


@check("C03")
def c03(ctx):
    order_check(ctx, ["sizeBig", "sizeSmall"], [("SizeBig", "sizebig"), ("SizeSmall", "sizesmall"), ("Weighted", "weight")])


LIMIT = lambda ctx: 1000 if ctx.quick else 8000


@check("C04")
def c04(ctx):
    models = [mc(ctx, "evictions", small_cfgs(PLAIN), FILES3 + [mop(5, 4), mop(6, 5), FREE2], ["q", "fr"], 4, 6),
              mc(ctx, "evictions with admission", [base_cfg("lruDatasetVerifier", max=3, ds=[1, 2, 3]), base_cfg("random_lru", max=3, coins=400)],
                 FILES3 + [dict(op="free", amt=1, pct=False)], ["q", "k"], 4, 6)]
    sc = histories(ctx, FINITE, 160, cfg=lambda c, k: red_cfg(ctx.rng, c, .1), fix_sizes=red_sizes)
    queue_check(ctx, ctx.build(), [("None", "none")])
    sc += long_ones(ctx, FINITE)
    cache_check(ctx, models, sc, limit=LIMIT(ctx))


def dumping(ctx, p, kinds=("dump",)):
    return lambda rng, g, ops: insert_ops(ops, rng, p, lambda: [dict(op=rng.choice(kinds))])


@check("C05")
def c05(ctx):
    rng = ctx.rng
    models = [mc(ctx, "occupancy", small_cfgs(["lru", "sizeSmall"]) + [base_cfg("lfu", max=4, wm=True, hi=75, lo=50), base_cfg("infinite", max=1)],
                 FILES3[:3] + [mop(6, 5), FREE2, dict(op="clearFiles"), dict(op="dump")], ["q", "fr", "max"], 4, 6)]
    sc = histories(ctx, ALL, 160, cfg=lambda c, k: (wm_cfg(rng, c, .4), red_cfg(rng, c, .1)), fix_sizes=red_sizes,
                   each=dumping(ctx, .04))
    sc += histories(ctx, ALL, 20, tag="p", each=lambda rng, g, ops: insert_ops(ops, rng, .1, lambda: [dict(op="free", amt=rng.randint(0, 120), pct=True)]))
    # the recorded finding: a stored file comes back with another size
    for k, typ in enumerate(["lru", "lfu", "sizeBig", "random_lru"]):
        c = rand_cfg(rng, typ, max=50, u=1)
        g = Gen(rng, c, 6, sizes={})
        g.sizes = {f: rng.randint(1, 9) for f in g.files}
        ops = []
        for _ in range(40):
            ops.append(g.get(s=None if rng.random() < .8 else rng.randint(1, 9)))
            if rng.random() < .05:
                ops.append(dict(op="clear"))
        sc.append(scen("known%d" % k, c, ops))
    sc += long_ones(ctx, ALL)
    cache_check(ctx, models, sc, limit=LIMIT(ctx))


def mixed(rng, c, wm=.3, red=.2):
    if rng.random() < wm and c["type"] not in ("random", "infinite"):
        wm_cfg(rng, c, 1)
    else:
        red_cfg(rng, c, red)


@check("C06")
def c06(ctx):
    rng = ctx.rng
    models = [mc(ctx, "membership", small_cfgs(PLAIN) + [base_cfg("lru", max=4, wm=True, hi=75, lo=50), base_cfg("infinite", max=1)],
                 FILES3 + [mop(6, 5), dict(op="clearFiles")], ["q", "fr"], 4, 6),
              mc(ctx, "membership with admission", [base_cfg("lruDatasetVerifier", max=3, ds=[1, 3]), base_cfg("random", max=3, coins=400)],
                 FILES3, ["q", "k"], 4, 6)]
    sc = histories(ctx, ALL, 160, cfg=lambda c, k: mixed(rng, c), fix_sizes=red_sizes, each=dumping(ctx, .01))
    sc += long_ones(ctx, ALL)
    cache_check(ctx, models, sc, limit=LIMIT(ctx))


@check("C07")
def c07(ctx):
    rng = ctx.rng
    models = [mc(ctx, "accounting", small_cfgs(["lru", "sizeBig"]) + [base_cfg("lfu", max=4, wm=True, hi=75, lo=50)],
                 FILES3[:3] + [mop(6, 5), FREE2, dict(op="clearStats"), dict(op="clearFiles")],
                 ["q", "req", "hit", "add", "del", "dw", "drh", "drm"], 4, 5)]
    sc = histories(ctx, ALL, 160, cfg=lambda c, k: mixed(rng, c), fix_sizes=red_sizes, each=dumping(ctx, .01))
    sc += histories(ctx, ALL, 20, tag="p", each=lambda rng, g, ops: insert_ops(ops, rng, .1, lambda: [dict(op="free", amt=rng.randint(0, 120), pct=True)]))
    sc += long_ones(ctx, ALL)
    cache_check(ctx, models, sc, limit=LIMIT(ctx))


@check("C08")
def c08(ctx):
    rng = ctx.rng
    ops = [mop(1, 1, 0, 1, 200), mop(1, 1, 0, 0, 120), mop(2, 3, 0, 1, 0), mop(3, 2, 0, 0, 400), mop(3, 2, 0, 2, 100), dict(op="clearStats"), dict(op="clearFiles")]
    models = [mc(ctx, "efficiency", [base_cfg("lru", max=4, region=r) for r in ("", "it", "us", "xx")], ops, ["q", "cpu"], 4, 6)]
    sc = histories(ctx, ALL, 160, other=("free",) + CLEARS, p_other=.04, cfg=lambda c, k: mixed(rng, c), fix_sizes=red_sizes, each=dumping(ctx, .01))
    sc += long_ones(ctx, ALL)
    cache_check(ctx, models, sc, strip=strip_st, limit=LIMIT(ctx))


@check("C09")
def c09(ctx):
    rng = ctx.rng
    models = [mc(ctx, "free space", small_cfgs(["lru", "sizeSmall"]) + [base_cfg("lru", max=8, wm=True, hi=75, lo=50)],
                 FILES3[:3] + [mop(6, 5), FREE2, dict(op="clearStats"), dict(op="clearFiles")], ["q", "free"], 4, 6)]
    def cfg(c, k):
        if c["type"] not in ("random", "infinite"):
            wm_cfg(rng, c, .3)
    sc = histories(ctx, ALL, 160, lens=(20, 50, 90), cfg=cfg, each=dumping(ctx, .01), big=0)
    cache_check(ctx, models, sc, strip=strip_st, limit=LIMIT(ctx))


@check("C10")
def c10(ctx):
    rng = ctx.rng
    cf = [base_cfg(t, max=8, wm=True, hi=h, lo=l) for t in PLAIN for h, l in ((75, 50), (100, 25))]
    models = [mc(ctx, "watermarks", cf, [mop(1, 1), mop(2, 2), mop(3, 3), mop(4, 4), mop(5, 8), mop(6, 9)], ["q", "fr"], 4, 6)]
    def cfg(c, k):
        wm_cfg(rng, c, .9)
        if rng.random() < .1:
            c["hi"] = c["lo"]
    sc = histories(ctx, PLAIN + ["aiNN", "random_lru", "lruDatasetVerifier", "weightFunLRU"], 160, cfg=cfg, small=True, other=("free", "clearFiles", "clearStats"))
    sc += histories(ctx, PLAIN, 30, tag="b", cfg=cfg)
    cache_check(ctx, models, sc, limit=LIMIT(ctx))


@check("C11")
def c11(ctx):
    rng = ctx.rng
    models = [mc(ctx, "redirection", [base_cfg("lru", max=4000, red=True, bwm=1), base_cfg("lfu", max=8000, red=False, bwm=1)],
                 [mop(1, 5400), mop(2, 540), mop(3, 3780), mop(4, 1080), dict(op="clearStats"), dict(op="clearFiles")], ["q", "drm", "red"], 5, 7)]
    sc = histories(ctx, ALL, 160, other=("free", "clearStats", "clearStats", "clearFiles", "clear"), p_other=.05,
                   cfg=lambda c, k: (red_cfg(rng, c, 1), c.update(red=rng.random() < .85)), fix_sizes=red_sizes, each=dumping(ctx, .01))
    cache_check(ctx, models, sc, limit=LIMIT(ctx))


@check("C12")
def c12(ctx):
    rng = ctx.rng
    models = [mc(ctx, "file statistics", small_cfgs(["lru"]) + [base_cfg("lru", max=4, red=False, wm=True, hi=75, lo=50)],
                 [mop(1, 1, 60), mop(2, 2, 0), mop(3, 4, 3600), mop(4, 5, 0), dict(op="clearFiles"), dict(op="clear")], ["q", "st", "clock"], 5, 6)]
    sc = histories(ctx, FINITE, 120, cfg=lambda c, k: mixed(rng, c), fix_sizes=red_sizes, each=dumping(ctx, .01))
    sc += histories(ctx, FINITE, 16, tag="r", lens=(150,), nfiles=(1, 2, 3), other=("clearStats",), p_other=.02)
    # times that go back
    sc += histories(ctx, FINITE, 16, tag="b", nfiles=(2, 5), each=few_times, cfg=lambda c, k: mixed(rng, c), fix_sizes=red_sizes,
                    tstep=lambda r: (lambda: r.choice([0, 60, 3600, 90000, -60, -3600, -90000])))
    # files whose size changes
    sc += histories(ctx, ["lru", "lfu"], 16, tag="z", lens=(60,), cfg=lambda c, k: c.update(max=100),
                    each=lambda rng, g, ops: [dict(o, s=rng.randint(1, 3)) if o["op"] == "get" else o for o in ops])
    sc += purging(ctx, 20)
    sc += long_ones(ctx, FINITE)
    cache_check(ctx, models, sc, limit=LIMIT(ctx))


def few_times(rng, g, ops):
    """no file is requested more often than its times are kept"""
    n, out = {}, []
    for o in ops:
        if o["op"] == "get":
            n[o["f"]] = n.get(o["f"], 0) + 1
            if n[o["f"]] > 31:
                continue
        out.append(o)
    return out


def purge_steps(r):
    k = r.random()
    if k < .5:
        return lambda: r.choice([0, 60, 600, 1800, 3600, 3600, 3599, 7200, 7201, 20000, 90000])
    if k < .75:
        return lambda: r.choice([0, 1, 675, 675, 674, 1350, 2025, 2700, 6075, 88425])
    # records which are not in the order of their times
    return lambda: r.choice([0, 60, 600, 1800, 3600, 7200, 20000, 90000, -60, -1800, -3600, -20000, -90000])


def purging(ctx, n, types=None):
    rng = ctx.rng
    def cfg(c, k):
        unit = rng.choice([3600, 3600, 675])     # 675 s are 1/128 of a day
        c["step"] = unit * rng.choice([1, 2, 3, 6, 24])
        c["maxday"] = unit * rng.choice([0, 1, 2, 3, 5, 24, 48, 131])
        if rng.random() < .5:
            c["max"] = rng.choice([3, 8])
        if rng.random() < .2 and c["type"] not in ("random", "infinite"):
            wm_cfg(rng, c, 1)
    return histories(ctx, types or FINITE, n, tag="p", cfg=cfg,
                     tstep=purge_steps, each=few_times,
                     other=("free", "clearFiles", "clearStats", "delmiss"))


@check("C13")
def c13(ctx):
    rng = ctx.rng
    cf = [base_cfg("lru", max=2, step=3600, maxday=3600 * d) for d in (0, 1, 2)] + [base_cfg("lfu", max=2, step=7200, maxday=3600, wm=True, hi=75, lo=50)]
    models = [mc(ctx, "purge", cf, [mop(1, 1, 0), mop(2, 2, 0), mop(1, 1, 1800), mop(3, 1, 3600), mop(3, 1, 3599), dict(op="clearFiles")],
                 ["q", "fr", "tl", "idle"], 4, 6)]
    sc = purging(ctx, 180)
    sc += long_ones(ctx, FINITE)
    cache_check(ctx, models, sc, limit=LIMIT(ctx))


@check("C14")
def c14(ctx):
    rng = ctx.rng
    models = [mc(ctx, "misses after delete", small_cfgs(PLAIN, 3) + [base_cfg("lru", max=4, wm=True, hi=75, lo=50), base_cfg("lru", max=3, red=True, bwm=0)],
                 [mop(1, 1), mop(2, 2), mop(3, 3), mop(4, 4), FREE2, dict(op="delmiss"), dict(op="clear")], ["q", "fr", "miss"], 4, 6)]
    def cfg(c, k):
        c["max"] = min(c["max"], 20)
        if rng.random() < .3 and c["type"] in PLAIN:
            wm_cfg(rng, c, 1)
        else:
            red_cfg(rng, c, .2)
    def each(rng, g, ops):
        return insert_ops(ops, rng, .12, lambda: [dict(op="delmiss")]) + [dict(op="delmiss")]
    types = PLAIN + ["aiNN", "lru", "lfu", "random_lru", "random", "weightFunLRU", "lruDatasetVerifier"]
    sc = histories(ctx, types, 160, cfg=cfg, small=True, each=each, other=("free", "clearFiles", "clearStats", "clear"), p_other=.04)
    sc += histories(ctx, types, 40, tag="q", cfg=lambda c, k: red_cfg(rng, c, 1), each=each, other=("free", "clearStats"), p_other=.02,
                    fix_sizes=lambda g, c: (red_sizes(g, c), g.sizes.update({f: min(s, c["max"]) for f, s in g.sizes.items()})))
    sc += long_ones(ctx, FINITE, each=each)
    cache_check(ctx, models, sc, strip=strip_st, limit=LIMIT(ctx))


@check("C15")
def c15(ctx):
    rng = ctx.rng
    models = [mc(ctx, "clears", small_cfgs(PLAIN) + [base_cfg("infinite", max=1)], FILES3[:3] + [mop(6, 5)] + CLEAR_OPS, ["q", "st", "cleared"], 4, 5)]
    sc = histories(ctx, ALL, 200, lens=(30, 60), p_other=.12, other=CLEARS + ("free",), cfg=lambda c, k: mixed(rng, c, .2, .2), fix_sizes=red_sizes)
    sc += histories(ctx, ALL, 10, tag="l", lens=(400,), nfiles=(8, 40), p_other=.008, other=CLEARS, cfg=lambda c, k: mixed(rng, c, .2, .2), fix_sizes=red_sizes)
    cache_check(ctx, models, sc, limit=LIMIT(ctx))


@check("C16")
def c16(ctx):
    rng = ctx.rng
    models = [mc(ctx, "restore", small_cfgs(PLAIN) + [base_cfg("infinite", max=1)],
                 FILES3[:3] + [dict(op="dump"), dict(op="fork"), dict(op="clearFiles")], ["q", "st"], 4, 5)]
    def each(rng, g, ops):
        k = rng.randint(0, len(ops))
        return insert_ops(ops[:k] + [dict(op="fork")] + ops[k:], rng, .04, lambda: [dict(op=rng.choice(["dump", "fork", "fork"]))])
    def cfg(c, k):
        if rng.random() < .3 and c["type"] not in ("random", "infinite"):
            wm_cfg(rng, c, 1)
    sc = histories(ctx, ALL, 200, lens=(30, 60, 100), p_other=.04, each=each, cfg=cfg,
                   tstep=lambda r: (lambda: r.choice([0, 1, 60, 600])))
    sc += long_ones(ctx, FINITE, each=dumping(ctx, .01))
    cache_check(ctx, models, sc, limit=LIMIT(ctx))


@check("C17")
def c17(ctx):
    rng = ctx.rng
    models = [mc(ctx, "draws", [base_cfg("random_lru", max=3, coins=400), base_cfg("random", max=3, coins=400)],
                 FILES3 + [mop(6, 4), FREE2], ["q", "k"], 4, 6)]
    def cfg(c, k):
        if c["type"] == "random_lru":
            mixed(rng, c, .2, .3)
        else:
            red_cfg(rng, c, .3)
    sc = histories(ctx, ["random_lru", "random"], 160, cfg=cfg, fix_sizes=red_sizes, each=dumping(ctx, .01))
    cache_check(ctx, models, sc, strip=None, limit=LIMIT(ctx))


@check("C18")
def c18(ctx):
    rng = ctx.rng
    cf = [base_cfg("weightFunLRU", max=5, wf=w, alpha=a, beta=b, gamma=g)
          for w, a, b, g in (("FuncAdditive", 1, 1, 1), ("FuncAdditive", -1, 2, 0), ("FuncAdditiveExp", 2, 1, 1), ("FuncMultiplicative", 1, 1, 1))]
    models = [mc(ctx, "weights", cf, [mop(1, 1), mop(2, 2, 1920), mop(3, 3), mop(4, 1, 3840), dict(op="extra"), dict(op="clearFiles")], ["q", "w", "clock"], 4, 6)]
    def cfg(c, k):
        c["max"] = rng.choice([3, 5, 8, 16])
        if c["wf"] == "FuncMultiplicative":
            c["alpha"] = min(c["alpha"], 1)
        if rng.random() < .3:
            wm_cfg(rng, c, 1)
            c["max"] = rng.choice([8, 16])
        elif rng.random() < .3:
            c["step"], c["maxday"] = rng.choice([1920, 1920 * 6]), rng.choice([0, 1920 * 2, 1920 * 10])
    each = lambda rng, g, ops: insert_ops(ops, rng, .12, lambda: [dict(op=rng.choice(["extra", "extra", "extra", "dump"]))]) + [dict(op="extra")]
    sc = histories(ctx, ["weightFunLRU"], 160, cfg=cfg, each=each, tstep=lambda r: (lambda: r.choice([0, 0, 1920, 3840])))
    # times that go back: the mean age may be negative
    sc += histories(ctx, ["weightFunLRU"], 40, tag="b", nfiles=(2, 5), cfg=cfg, each=lambda rng, g, ops: each(rng, g, few_times(rng, g, ops)),
                    tstep=lambda r: (lambda: r.choice([0, 1920, 3840, 19200, -1920, -3840, -9600])))
    cache_check(ctx, models, sc, limit=LIMIT(ctx))


@check("C19")
def c19(ctx):
    rng = ctx.rng
    models = [mc(ctx, "infinite", [base_cfg("infinite", max=1), base_cfg("infinite", max=4)], FILES3 + CLEAR_OPS + [dict(op="dump"), mop(5, 20)], ["q", "max", "seen"], 4, 6)]
    def cfg(c, k):
        c["step"], c["maxday"] = rng.choice([3600, 10 * DAY]), rng.choice([0, 3600, 10 * DAY])
        red_cfg(rng, c, .15)
    sc = histories(ctx, ["infinite"], 140, cfg=cfg, other=CLEARS, each=dumping(ctx, .02), fix_sizes=red_sizes)
    queue_check(ctx, ctx.build(), [("None", "none")])
    cache_check(ctx, models, sc, limit=LIMIT(ctx))


@check("C20")
def c20(ctx):
    rng = ctx.rng
    models = [mc(ctx, "dataset", [base_cfg("lruDatasetVerifier", max=3, ds=d) for d in ([1, 2, 3], [1, 4], [], [2, 3, 4, 9])],
                 FILES3 + [mop(5, 2), FREE2, dict(op="clearFiles"), dict(op="dump")], ["q"], 5, 7)]
    sc = histories(ctx, ["lruDatasetVerifier"], 160, cfg=lambda c, k: mixed(rng, c), fix_sizes=red_sizes, each=dumping(ctx, .02))
    cache_check(ctx, models, sc, limit=LIMIT(ctx))


@check("C21")
def c21(ctx):
    rng = ctx.rng
    ctx.model_check("LogWriter", {"ROWS": 5 if ctx.quick else 8}, "LogWriter", scripts=False)
    models = [mc(ctx, "log", [dict(base_cfg("lru", max=3), log=True), dict(base_cfg("lfu", max=4, wm=True, hi=75, lo=50), log=True),
                              dict(base_cfg("sizeBig", max=3, red=True, bwm=0), log=True)],
                 [mop(1, 1), mop(2, 2), mop(3, 3), mop(4, 4), FREE2, dict(op="clearFiles")], ["q", "fr", "log"], 3, 4)]
    for m in models:
        m["tail"] = [dict(op="terminate")]
    def cfg(c, k):
        c["log"] = True
        c["max"] = min(c["max"], 64)
        if c["type"] in PLAIN and rng.random() < .3:
            wm_cfg(rng, c, 1)
        else:
            red_cfg(rng, c, .2)
    def each(rng, g, ops):
        return insert_ops(ops, rng, .02, lambda: [dict(op="terminate")]) + [dict(op="terminate")]
    sc = histories(ctx, PLAIN + ["lru", "random_lru", "aiNN"], 160, cfg=cfg, each=each, small=True, big=0,
                   fix_sizes=lambda g, c: (red_sizes(g, c), g.sizes.update({f: min(s, c["max"]) for f, s in g.sizes.items()})) if c["red"] else None)
    cache_check(ctx, models, sc, limit=LIMIT(ctx))


@check("C26")
def c26(ctx):
    rng = ctx.rng
    types = [t for t in ALL if t not in ("random", "weightFunLRU")]
    models = [mc(ctx, "reference", small_cfgs(PLAIN) + [base_cfg("lru", max=4, wm=True, hi=75, lo=50), base_cfg("lfu", max=2, step=3600, maxday=3600)],
                 [mop(1, 1, 0), mop(2, 2, 1800), mop(3, 3, 0), mop(4, 1, 3600), FREE2, dict(op="clearFiles"), dict(op="dump")], ["q", "st", "idle"], 4, 5)]
    sc = histories(ctx, types, 160, cfg=lambda c, k: mixed(rng, c), fix_sizes=red_sizes, each=dumping(ctx, .02))
    sc += purging(ctx, 20, types)
    def wcfg(c, k):
        c["max"] = rng.choice([3, 5, 8, 16])
        if c["wf"] == "FuncMultiplicative":
            c["alpha"] = min(c["alpha"], 1)
        if rng.random() < .3:
            wm_cfg(rng, c, 1)
            c["max"] = rng.choice([8, 16])
    sc += histories(ctx, ["weightFunLRU"], 30, tag="w", cfg=wcfg, each=dumping(ctx, .02), tstep=lambda r: (lambda: r.choice([0, 0, 1920, 3840])))
    sc += long_ones(ctx, types)
    cache_check(ctx, models, sc, limit=LIMIT(ctx))


# ---------------------------------------------------------------- simulations
SIMTYPES = ["lru", "lru", "lfu", "sizeBig", "sizeSmall", "random_lru", "lruDatasetVerifier", "weightFunLRU", "infinite", "aiNN"]


def sim_model(ctx, name, stages, recs, quick=6, deep=8, maxstages=1, types=("lru",), **kw):
    return dict(name=name, cfgs=[base_cfg(t, max=3, step=100 * DAY, **kw) for t in types], stages=stages, recs=recs,
                depth=quick if ctx.quick else deep, maxstages=maxstages)


@check("C22")
def c22(ctx):
    rng = ctx.rng
    st = [mstage(), mstage(win=2), mstage(win=1, wstart=1, wstop=3), mstage(win=2, wstart=1, wstop=2), mstage(win=1, wstart=2, wstop=2), mstage(wstop=1)]
    recs = [srec(1, 1, 0), srec(2, 2, 82799), srec(3, 1, 82800), srec(1, 1, 1, ok=False), srec(2, 2, 200000, cpu=0, io=0)]
    sc = [sim_scen(rng, "h%d" % k, SIMTYPES, rng.choice([1, 1, 2]), back=k % 3 == 0) for k in range(200 if ctx.quick else 3000)]
    sim_check(ctx, [sim_model(ctx, "windows", st, recs, 6, 8)], sc, LIMIT(ctx))


@check("C23")
def c23(ctx):
    rng = ctx.rng
    st = [mstage(), mstage(filt="us", wstop=2), mstage(filt="it", wstart=1)]
    recs = [srec(1, 1, 0), srec(2, 2, 82800, dt=3, site=9), srec(3, 1, 0, dt=1, ft=9), srec(1, 1, 1, ok=False), srec(1, 1, 1, ex=1), srec(2, 2, 0, cpu=0, io=0), srec(2, 2, 5, cpu=500, io=-100)]
    sc = [sim_scen(rng, "h%d" % k, SIMTYPES, rng.choice([1, 1, 2]), back=k % 3 == 0) for k in range(200 if ctx.quick else 3000)]
    sim_check(ctx, [sim_model(ctx, "outcomes", st, recs, 5, 6), sim_model(ctx, "redirected", [mstage()], [srec(1, 5400, 0), srec(2, 5400, 60), srec(2, 540, 82800, ok=False), srec(3, 270, 82800)], 6, 8, red=True, bwm=1)], sc, LIMIT(ctx))
    # the filters themselves, over every relevant combination
    fl = []
    for dt in range(-1, 6):
        for ft in range(-1, 13):
            fl.append(scen("f%d_%d" % (dt, ft), {}, [dict(op="filter", f=1, s=1, p=1, dt=dt, ft=ft, site=si, user=0, ok=ok, ex=ex)
                                                      for si in list(range(-1, 20)) for ok, ex in ((True, 0), (False, 0), (True, 1), (False, 3))], "filter"))
    binary = ctx.build()
    tr = ctx.execute(binary, fl, "f")
    ctx.validate("ReadTrace", fl, tr)


@check("C25")
def c25(ctx):
    rng = ctx.rng
    st = [mstage(dump=True), mstage(dump=True, load=True), mstage(dump=True, load=True, cold=True), mstage(load=True, cold=True, coldns=True), mstage(dump=True, dumpfs=False)]
    recs = [srec(1, 1, 0), srec(2, 2, 60), srec(3, 1, 82800), srec(1, 1, 1, ok=False)]
    sc = [sim_scen(rng, "h%d" % k, SIMTYPES, rng.choice([1, 2, 2, 3])) for k in range(240 if ctx.quick else 3000)]
    sim_check(ctx, [sim_model(ctx, "restarts", st, recs, 5, 7, maxstages=3, types=("lru", "lfu"))], sc, LIMIT(ctx))


@check("C24")
def c24(ctx):
    rng = ctx.rng
    binary = ctx.build()
    fn = ctx.path("read.json")
    scripts = ctx.model_check("ReadMC", {"NCOLS": 4 if ctx.quick else 5}, "ReadMC")
    sc = []
    for n, s in enumerate(scripts):
        # a permutation of some columns (and one additional column) among the others
        perm = [int(x) for x in re.findall(r"\d+", s)]
        base = list(COLUMNS)
        picks = rng.sample(range(25), len(perm) - 1)
        chosen = [base[p] for p in picks] + ["Other"]
        cols = [c for i, c in enumerate(base) if i not in picks]
        at = rng.randint(0, len(cols))
        cols[at:at] = [chosen[p - 1] for p in perm]
        f = read_file(rng, "data.csv", 2, std=True)
        f["cols"] = cols
        f["rows"] = [[rng.randint(0, 1) if c == "JobSuccess" else rng.randint(0, 1000) for c in cols] for _ in range(2)]
        sc.append(scen("p%d" % n, {}, [dict(op=rng.choice(["file", "folder"]), files=[f])], "read"))
    sc += [read_scen(rng, "h%d" % k) for k in range(300 if ctx.quick else 4000)]
    # longer than the buffer of the reader
    sc += [read_scen(rng, "L%d" % k, rows=(1500, 3000)) for k in range(2 if ctx.quick else 20)]
    tr = ctx.execute(binary, sc, "r")
    ctx.log("%d datasets read" % len(sc))
    ctx.validate("ReadTrace", sc, tr)
    ctx.log("records judged")


# ---------------------------------------------------------------- the program
@check("C27")
def c27(ctx):
    rng = ctx.rng
    recs = [dict(srec(f, s, 0), t=t) for f, s, t in ((1, 300, 0), (2, 400, 60), (3, 500, 82800), (1, 300, 90000), (2, 400, 170000), (3, 500, 260000), (1, 300, 350000))]
    on = {"window.stop": 50, "window.size": 1, "data": "there", "cache.size.value": 1, "cache.size.unit": "G"}
    confs = [dict(on, **{"cache.type": "lru", "dump": True}), dict(on, **{"cache.type": "lru", "overwrite": True, "loaddump": True}),
             dict(on, **{"cache.type": "lru", "overwrite": True, "window.stop": 1}), dict(on, **{"cache.type": "lfu", "dump": True}),
             {"cache.type": "lru", "data": "there", "cache.size.value": 1, "cache.size.unit": "g"}, dict(on, **{"cache.type": "lru", "cache.size.unit": "K"}),
             dict(on, **{"cache.type": "lru", "region": "us"})]
    models = [dict(name="program", confs=confs, ds=[], recs=recs, depth=3 if ctx.quick else 4)]
    types = ["lru", "lru", "lfu", "sizeBig", "sizeSmall", "random_lru", "lruDatasetVerifier", "weightFunLRU", "infinite", "aiNN"]
    sc = [cmd_scen(rng, "h%d" % k, types, rng.choice([1, 2, 2, 3])) for k in range(150 if ctx.quick else 2500)]
    sc += [cmd_scen(rng, "r%d" % k, types, 5, n=(8, 20), restarts=True) for k in range(12 if ctx.quick else 120)]
    sc += [default_scen(rng, "d%d" % k) for k in range(80 if ctx.quick else 1200)]
    cmd_check(ctx, models, sc, LIMIT(ctx))


# ---------------------------------------------------------------- agents
@check("C28")
def c28(ctx):
    agent_check(ctx)


@check("C29")
def c29(ctx):
    map_check(ctx)


@check("C30")
def c30(ctx):
    ai_check(ctx, ["evc", "both", "evc", "both", "scdl", "add", "none"], 210)


@check("C31")
def c31(ctx):
    ai_check(ctx, ["scdl", "add", "scdl", "add", "both"], 200)


@check("C32")
def c32(ctx):
    ai_sim_check(ctx, 260)


@check("C33")
def c33(ctx):
    ai_cmd_check(ctx, 150)


@check("C34")
def c34(ctx):
    learn_check(ctx, 200)


# ---------------------------------------------------------------- Python
@check("C35")
def c35(ctx):
    datafile_check(ctx, 400)


@check("C36")
def c36(ctx):
    pycache_check(ctx, 300)


@check("C37")
def c37(ctx):
    table_check(ctx, 300)


@check("C38")
def c38(ctx):
    dataset_check(ctx, 200)


@check("C39")
def c39(ctx):
    client_check(ctx, 300)


@check("C40")
def c40(ctx):
    rng = ctx.rng
    k = 24 if ctx.quick else 240
    def lru(j):
        c = base_cfg(rng.choice(["lru", "lfu", "sizeBig", "sizeSmall"]), max=rng.choice([8, 16]))
        c["log"] = True
        return scen("p%d" % j, c, [dict(op="get", f=(f := rng.randint(1, 9)), s=1 + f % 5, p=0, c=0, t=60 * t, site=1, user=1, ft=1) for t in range(40)] + [dict(op="terminate")])
    probe_check(ctx, 260, [learn_history(rng, "a%d" % j, rng.choice([20, 40])) for j in range(k)] + [lru(j) for j in range(k // 2)])


@check("C41")
def c41(ctx):
    avrofile_check(ctx, 500)


@check("C42")
def c42(ctx):
    simdata_check(ctx, 900)

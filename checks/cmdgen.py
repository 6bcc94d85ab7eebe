"""Scenarios for the simulator program: configuration files."""
import json, re
from cachegen import *
import simgen

DEFAULTS = {"cache.size.value": 100, "cache.size.unit": "T", "cache.bandwidth.value": 10000, "cache.bandwidth.redirect": False,
            "cache.watermarks": False, "cache.watermark.high": 95, "cache.watermark.low": 75,
            "cache.stats.maxNumDayDiff": 6 * DAY, "cache.stats.deltaDaysStep": 7 * DAY, "region": "all",
            "weightfunc.name": "FuncAdditiveExp", "weightfunc.alpha": 1, "weightfunc.beta": 1, "weightfunc.gamma": 1,
            "window.size": 7, "window.start": 0, "window.stop": 0, "dump": False, "dumpfilesandstats": True, "dumpfilename": "",
            "loaddump": False, "loaddumpfilename": "", "coldstart": False, "coldstartnostats": False, "overwrite": False,
            "log": False, "seed": 42, "outputupdatedelay": 2.4, "cpuprofile": "", "memprofile": ""}
SCALE = {"cache.bandwidth.value": 1000., "cache.stats.maxNumDayDiff": 86400., "cache.stats.deltaDaysStep": 86400.}
MB = {"m": 1, "g": 1024, "t": 1 << 20, "p": 1 << 30}


def eff(conf, ds, coins=0):
    """How the executor reads the dump (it takes no part in the judgement)."""
    g = lambda k: conf.get(k, DEFAULTS.get(k))
    reg = g("region")
    size = g("cache.size.value") * MB.get(g("cache.size.unit").lower(), 1)
    if "cache.size.sixteenths" in conf:
        size = conf["cache.size.sixteenths"] * MB.get(g("cache.size.unit").lower(), 1) // 16
    return dict(type=g("cache.type") or "lru", u=1, max=size, red=g("cache.bandwidth.redirect"),
                bwm=g("cache.bandwidth.value"), wm=g("cache.watermarks"), hi=g("cache.watermark.high"), lo=g("cache.watermark.low"),
                maxday=g("cache.stats.maxNumDayDiff"), step=g("cache.stats.deltaDaysStep"), seed=g("seed"), log=False,
                region=reg if reg in ("us", "it") else "", wf=g("weightfunc.name"), alpha=g("weightfunc.alpha"), beta=g("weightfunc.beta"),
                gamma=g("weightfunc.gamma"), ds=ds, coins=coins, seedhi=conf.get("seedhi", 0))


def yaml(rng, conf):
    tree = {}
    for k, v in conf.items():
        if k == "seedhi":
            continue
        if k == "cache.size.sixteenths":
            k, v = "cache.size.value", v / 16
        if k == "seed":
            v += conf.get("seedhi", 0) << 32
        if k in SCALE:
            v = v / SCALE[k]
        if k == "data":
            v = "@DATA@" if v != "missing" else "no/such/file.csv"
        if k == "ai.featuremap":
            v = "@MAP@"
        if k == "ai.dataset2TestPath":
            v = "@DS@"
        if k.startswith("ai.rl.") and k.endswith("featuremap"):
            v = "no/such/map.json" if v == "missing" else "@ADDMAP@" if "addition" in k else "@EVCMAP@"
        if ".epsilon." in k and not isinstance(v, bool):
            v = v / 1e7
        p = tree
        path = ("sim." + k).split(".")
        for a in path[:-1]:
            p = p.setdefault(a, {})
        p[path[-1]] = v
    tree["sim"]["outputFolder"] = "@OUT@"
    tree["sim"]["type"] = "normal"
    style = rng.random()
    if style < .2:
        return json.dumps(tree)

    def emit(t, ind):
        out = []
        items = list(t.items())
        rng.shuffle(items)
        for k, v in items:
            key = k if style < .7 else k.lower()
            if isinstance(v, dict):
                out.append("%s%s:" % ("  " * ind, key))
                out += emit(v, ind + 1)
            elif isinstance(v, bool):
                out.append("%s%s: %s" % ("  " * ind, key, "true" if v else "false"))
            elif isinstance(v, str):
                out.append("%s%s: \"%s\"" % ("  " * ind, key, v))
            else:
                out.append("%s%s: %s" % ("  " * ind, key, v))
        return out
    return "---\n" + "\n".join(emit(tree, 0)) + "\n"


def run_name(conf):
    """Where the executor puts the remains of an earlier run (it takes no part in the judgement)."""
    g = lambda k: conf.get(k, DEFAULTS.get(k))
    if g("cache.type") == "weightFunLRU":
        return "_".join([g("cache.type"), g("weightfunc.name")] + ["%.2f" % g("weightfunc." + a) for a in ("alpha", "beta", "gamma")])
    v = conf["cache.size.sixteenths"] / 16 if "cache.size.sixteenths" in conf else g("cache.size.value")
    return "_".join([g("cache.type"), "%.0f%s" % (v, g("cache.size.unit").upper()), "%dGbit" % ((g("cache.bandwidth.value") + 500) // 1000), g("region")])


def stage(rng, conf, ds, data, coins=0):
    d = dict(conf=conf, yaml=yaml(rng, conf), cfgname=rng.choice(["config.yaml", "config.yml", "my.conf.yaml", "run_1.yaml"]),
             c=eff(conf, ds, coins), parts=rng.choice([1, 1, 2]), gz=rng.random() < .4, rel=rng.random() < .5, ds=ds,
             dumpf=conf.get("dumpfilename") or "cache_dump.json.gz", data=data)
    return d


def cache_conf(rng, typ, sizes):
    conf = {"cache.type": typ}
    v, u = rng.choice([(1, "G"), (1, "g"), (2, "G"), (500, "M"), (800, "m"), (8, "G"), (1, "T"), (None, None), (3, None), (1, "P"), (1, "p"), (1500, "M")])
    if typ == "weightFunLRU":
        v, u = rng.choice([(3, "M"), (5, "m"), (8, "M"), (16, "M")])
    if typ == "infinite":
        v, u = rng.choice([(1, "M"), (1, "G")])
    if v is not None:
        conf["cache.size.value"] = v
    if typ not in ("weightFunLRU", "infinite") and rng.random() < .15:
        conf.pop("cache.size.value", None)
        conf["cache.size.sixteenths"], u = rng.choice([(8, "G"), (24, "G"), (40, "g"), (12, "G"), (17, "G"), (15, "G"), (1, "T"), (1, "t"), (8, "T"), (16, "G"), (9, "G"), (7, "g")])
        v = None
    if u is not None:
        conf["cache.size.unit"] = u
    if rng.random() < .7:
        conf["cache.bandwidth.value"] = rng.choice([1, 1000, 10000, 25000, 100000, 100])
    if rng.random() < .6:
        conf["region"] = rng.choice(["us", "it", "us", "it", "all", "xx", "US"])
    if typ == "weightFunLRU":
        c = {}
        rand_weights(rng, c)
        for k, n in (("wf", "weightfunc.name"), ("alpha", "weightfunc.alpha"), ("beta", "weightfunc.beta"), ("gamma", "weightfunc.gamma")):
            if rng.random() < .8:
                conf[n] = c[k]
        w = conf.get("weightfunc.name", "FuncAdditiveExp")
        if w != "FuncAdditive":
            for n in ("weightfunc.alpha", "weightfunc.beta", "weightfunc.gamma"):
                if n in conf:
                    conf[n] = min(1, max(0, conf[n]))
    if typ == "aiNN":
        conf["ai.featuremap"] = "map"
    if typ == "lruDatasetVerifier":
        conf["ai.dataset2TestPath"] = "ds"
    r = rng.random()
    if r < .2 and typ not in ("infinite", "weightFunLRU") and u not in ("P", "p", "T", None) and v in (1, 2, 500, 800):
        conf["cache.watermarks"] = True
        hi, lo = rng.choice([(76, 50), (90, 50), (50, 25), (100, 75)])
        if rng.random() < .5:
            conf["cache.watermark.high"] = max(hi, 76)
        if rng.random() < .5:
            conf["cache.watermark.low"] = min(lo, 75)
    elif r < .4 and typ not in ("infinite", "weightFunLRU"):
        conf["cache.bandwidth.redirect"] = True
        conf["cache.bandwidth.value"] = 1
    elif r < .55 and typ != "weightFunLRU":
        conf["cache.stats.deltaDaysStep"] = 3600 * rng.choice([6, 24, 48])
        if rng.random() < .7:
            conf["cache.stats.maxNumDayDiff"] = 3600 * rng.choice([0, 6, 24, 48])
    if typ in ("random", "random_lru") and rng.random() < .8:
        conf["seed"] = rng.randrange(1, 10 ** 6)
        if rng.random() < .5:
            conf["seedhi"] = rng.choice([1, -1, 7, -3, 1 << 20, -(1 << 20)])
    if rng.random() < .15 and typ in ("lru", "lfu", "sizeBig", "sizeSmall", "random_lru"):
        conf["log"] = True
    return conf


def sizes_for(rng, conf, nf):
    c = eff(conf, [])
    fs = file_ids(rng, nf)
    if conf.get("cache.bandwidth.redirect"):
        return {f: rng.choice([270, 540, 540, 1080, 500, 1620]) for f in fs}
    mx = min(c["max"], 2000)
    if c["type"] == "weightFunLRU":
        mx = min(mx, 64)
    return {f: max(1, s) for f, s in file_sizes(rng, fs, mx).items()}


def stage_conf(rng, base, first, dumps, later):
    conf = dict(base)
    if rng.random() < .85 or first:
        conf["window.stop"] = rng.choice([1000, 1000, 1000, 1, 2, 3])
    if rng.random() < .7:
        conf["window.size"] = rng.choice([1, 1, 2, 3])
    if rng.random() < .25:
        conf["window.start"] = rng.choice([0, 1, 2])
    if rng.random() < .6:
        conf["dump"] = rng.random() < .85
        if rng.random() < .3:
            conf["dumpfilename"] = rng.choice(["d1.json.gz", "d2.json.gz", ""])
        if rng.random() < .3:
            conf["dumpfilesandstats"] = rng.random() < .5
    if later and rng.random() < .7 or rng.random() < .1:
        conf["overwrite"] = rng.random() < .9
    if dumps and rng.random() < .6:
        conf["loaddump"] = True
        conf["overwrite"] = True
        d = rng.choice(sorted(dumps))
        if d != "cache_dump.json.gz" or rng.random() < .3:
            conf["loaddumpfilename"] = d
        if rng.random() < .4:
            conf["coldstart"] = rng.random() < .8
        if rng.random() < .4:
            conf["coldstartnostats"] = rng.random() < .7
    for k, v in (("outputupdatedelay", 0), ("cpuprofile", "cpu.prof"), ("memprofile", "mem.prof")):
        if rng.random() < .12:
            conf[k] = v
    conf["data"] = "there"
    return conf


def spoil(rng, conf):
    conf = dict(conf)
    for k in ("loaddump", "dump"):
        conf.pop(k, None)
    k = rng.randrange(5)
    if k == 0:
        conf["cache.type"] = rng.choice(["lRU", "LRU", "fifo", ""])
    elif k == 1:
        conf["cache.size.unit"] = rng.choice(["K", "MB", "", "gb", "B"])
    elif k == 2:
        conf["cache.type"] = "weightFunLRU"
        conf["weightfunc.name"] = rng.choice(["funcAdditive", "FuncWeightedRequests", ""])
    elif k == 3:
        conf["cache.type"] = "aiNN"
        conf.pop("ai.featuremap", None)
    else:
        conf["data"] = "missing"
    return conf


def cmd_scen(rng, id, types, stages=2, n=(20, 60), restarts=False):
    typ = rng.choice(types)
    base = cache_conf(rng, typ, None)
    sizes = sizes_for(rng, base, rng.choice([2, 4, 8]))
    ds = rng.sample(sorted(sizes), rng.randint(1, len(sizes))) if typ == "lruDatasetVerifier" else []
    coins = 300 if typ in ("random", "random_lru") else 0
    t0, ops, dumps = 0, [], set()
    for k in range(stages):
        conf = stage_conf(rng, base, k == 0, dumps, k > 0)
        if restarts:
            for x in ("dumpfilename", "loaddumpfilename"):
                conf.pop(x, None)
            conf.update({"dump": True, "overwrite": True, "window.stop": rng.choice([1, 2, 1000]), "window.start": 0})
            if k:
                conf["loaddump"] = True
        plain = dict(conf)
        if restarts:
            pass
        elif rng.random() < .08:
            conf = spoil(rng, conf)
        elif rng.random() < .08:
            conf.pop("loaddump", None)
            conf["region"] = rng.choice(["us", "it", "all"])
        prior = None
        if conf == plain and rng.random() < .12:
            prior = rng.choice([0, 1, 300, 501, 599, 600, 600, 601, 601, 700, rng.randint(330, 900)])
        c = eff(conf, ds)
        data = simgen.sim_records(rng, c, rng.choice(n), sizes, p_bad=rng.choice([0, .1, .3]), t0=t0)
        if data:
            t0 = data[-1]["t"] + 1920 * rng.randint(0, 60)
        ops.append(stage(rng, conf, ds, data, coins))
        if prior is not None:
            ops[-1]["prior"], ops[-1]["pname"] = prior, run_name(conf)
        # only a run which surely happens leaves a dump to load
        if conf.get("dump") and conf["data"] == "there" and conf["cache.type"] == typ and conf.get("region") == base.get("region") \
                and (conf.get("overwrite") or (k == 0 and (prior or 0) <= 600)) and MB.get(c and conf.get("cache.size.unit", "T").lower()):
            dumps.add(conf.get("dumpfilename") or "cache_dump.json.gz")
    return scen(id, dict(seed=base.get("seed", 42), seedhi=base.get("seedhi", 0), coins=coins, wide=rng.random() < .4), ops, "cmd")


def default_scen(rng, id):
    """Histories in which the exact value of a default matters."""
    kind = rng.choice(["marks", "marks", "purge", "purge", "size", "window"])
    typ = rng.choice(PLAIN)
    conf = {"cache.type": typ, "window.stop": 1000, "window.size": 1, "data": "there", "dump": True}
    nf = rng.choice([30, 60])
    fs = file_ids(rng, nf)
    c = dict(type=typ)
    if kind == "marks":
        conf["cache.size.value"], conf["cache.size.unit"] = 1000, "M"
        conf["cache.watermarks"] = True
        if rng.random() < .3:
            conf["cache.watermark.high"] = 80
        elif rng.random() < .3:
            conf["cache.watermark.low"] = 40
        sizes = {f: rng.choice([5, 10, 30, 50]) for f in fs}
        data = simgen.sim_records(rng, c, rng.choice([80, 160]), sizes, p_bad=0)
    elif kind == "purge":
        conf["cache.size.value"], conf["cache.size.unit"] = 100, "M"
        if rng.random() < .4:
            conf["cache.stats.deltaDaysStep"] = 86400 * rng.choice([1, 5, 7, 9])
        elif rng.random() < .4:
            conf["cache.stats.maxNumDayDiff"] = 86400 * rng.choice([1, 5, 7, 9])
        sizes = {f: rng.choice([5, 10, 30, 50]) for f in fs}
        data = simgen.sim_records(rng, c, rng.choice([80, 160]), sizes, p_bad=0)
        t = 0
        for r in data:
            t += rng.choice([600, 3600, 7200, 21600, 43200])
            r["t"] = t
    elif kind == "size":
        k = rng.randrange(3)
        if k != 0:
            conf["cache.size.value"] = rng.choice([1, 2, 5])
        if k != 1:
            conf["cache.size.unit"] = rng.choice(["M", "G", "P", "T"])
        if conf.get("cache.size.unit") == "P":
            conf["cache.size.value"] = 1
        mx = min(eff(conf, [])["max"], 10 ** 6)
        sizes = {f: rng.randint(1, max(1, min(400, mx))) for f in fs}
        data = simgen.sim_records(rng, c, 40, sizes, p_bad=0)
    else:
        for k in ("window.size", "window.stop", "dump"):
            if rng.random() < .5:
                del conf[k]
        conf["window.start"] = rng.choice([0, 1, 1])
        conf["cache.size.value"], conf["cache.size.unit"] = 500, "M"
        sizes = {f: rng.choice([5, 10, 30, 50]) for f in fs}
        data = simgen.sim_records(rng, c, 80, sizes, p_bad=.1)
        t = 0
        for r in data:
            t += rng.choice([3600, 7200, 21600, 43200])
            r["t"] = t
    return scen(id, dict(seed=42, coins=0), [stage(rng, conf, [], data)], "cmd")


def cmd_check(ctx, models, scenarios, limit):
    binary = ctx.build()
    ctx.build("vsim", pkg=".")
    ctx.env = dict(ctx.env, VSIM_BIN=ctx.path("vsim"))
    allsc = []
    for k, m in enumerate(models):
        fn = ctx.path("cmd%d.json" % k)
        json.dump(m, open(fn, "w"))
        scripts = ctx.model_check("ConfigMC", {"MCCFG": fn}, "ConfigMC[%s]" % m["name"])
        seqs = sorted({tuple(int(x) for x in re.findall(r"\d+", s))[1:] for s in scripts})
        keep = [a for a in seqs if len(a) == m["depth"]]
        tot = len(keep)
        if len(keep) > limit:
            keep = ctx.rng.sample(keep, limit)
        ctx.mc[-1]["replayed"], ctx.mc[-1]["maximal_scripts"] = len(keep), tot
        for n, idx in enumerate(keep):
            allsc.append(scen("m%d_%d" % (k, n), dict(seed=42, coins=0),
                              [stage(ctx.rng, m["confs"][i - 1], m["ds"], m["recs"]) for i in idx], "cmd"))
    allsc += scenarios
    traces = ctx.execute(binary, allsc, "c")
    ctx.log("%d sequences of runs executed" % len(allsc))
    ctx.validate("ConfigTrace", allsc, traces)
    ctx.log("runs judged")

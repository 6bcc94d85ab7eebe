"""Scenarios for the caches driven by learning agents (C30, C31)."""
import json
from agentgen import tabs, DECAYS
from cachegen import base_cfg, hard_numbers, scen, file_ids, mop, scripts_to_scen

ADDF = {
    "hit": lambda r: dict(type="bool", vals=[0, 1], open=False),
    "size": lambda r: dict(type="float", vals=sorted(r.sample([512, 1024, 1536, 2048, 3072], r.choice([1, 2]))), open=True),
    "numReq": lambda r: dict(type="int", vals=sorted(r.sample([1, 2, 3, 5], r.choice([1, 2]))), open=True),
    "deltaLastRequest": lambda r: dict(type="int", vals=sorted(r.sample([1, 2, 4, 8, 20], r.choice([1, 2]))), open=True),
    # bounds in between the steps of the occupancy as well as on them; of the hit rate those which floating point hits exactly
    "percOcc": lambda r: dict(type="float", vals=sorted(r.sample([3, 28, 50, 53, 78, 94, 100, 150], r.choice([1, 2, 3]))), open=True),
    "hitRate": lambda r: dict(type="float", vals=sorted(r.sample([25, 50, 75, 100, 150], r.choice([1, 2]))), open=True),
}
EVCF = {
    "catSize": ADDF["size"],
    "catNumReq": ADDF["numReq"],
    "catDeltaLastRequest": lambda r: dict(type="int", vals=sorted(r.sample([2, 5, 10, 20, 40], r.choice([1, 2]))), open=True),
    "catPercOcc": ADDF["percOcc"],
    "percOcc": ADDF["percOcc"],
    "hitRate": ADDF["hitRate"],
}


def feats(rng, table, names):
    out = []
    for n in names:
        f = table[n](rng)
        out.append(dict(name=n, file=n.startswith("cat") and n != "catPercOcc", key=rng.choice(["buckets", "values"]), **f))
    rng.shuffle(out)
    return out


def add_feats(rng):
    return feats(rng, ADDF, rng.sample(sorted(ADDF), rng.choice([1, 2, 2, 3, 4])))


def evc_feats(rng):
    names = ["catSize", "catNumReq", "catDeltaLastRequest"]
    if rng.random() < .3:
        names = rng.sample(names, rng.choice([1, 2]))
    return feats(rng, EVCF, names + rng.sample(["catPercOcc", "percOcc", "hitRate"], rng.choice([0, 0, 1, 2])))


def ai_cfg(rng, mode, **kw):
    """mode: scdl, add, evc, both, none"""
    c = base_cfg("aiRL", u=1, max=rng.choice([2048, 4096, 8192, 16384]), seed=rng.randrange(1, 10 ** 6),
                 bwm=rng.choice([1, 1, 2, 4, 16, 1000]), rl="SCDL" if mode == "scdl" else "SCDL2",
                 evtype="none", evk=rng.choice([0, 1, 2, 3, 5, 9]), addfeats=[], evcfeats=[], draws=600,
                 addeps=rng.choice([1000, 1000, 500, 500, 0, 0, 110, 100]), adddec=rng.choice(DECAYS),
                 evceps=rng.choice([1000, 500, 0, 0, 100]), evcdec=rng.choice(DECAYS),
                 addunl=rng.random() < .6, evcunl=rng.random() < .5)
    hard_numbers(rng, c)
    if mode in ("scdl", "add", "both"):
        c["addfeats"] = add_feats(rng)
    if mode in ("evc", "both"):
        c["evcfeats"] = evc_feats(rng)
        c["evtype"] = rng.choice(["onK", "onK", "onDayEnd", "onFree", "onFree", "none"])
    elif rng.random() < .5:
        c["evtype"] = rng.choice(["onK", "onDayEnd", "onFree"])
    if not c["evcfeats"] and rng.random() < .2:
        c["wm"] = True
        c["hi"], c["lo"] = rng.choice([(95, 75), (75, 50), (100, 25)])
    c.update(kw)
    return c


def ai_history(rng, id, mode, n, **kw):
    c = ai_cfg(rng, mode, **kw)
    files = file_ids(rng, rng.choice([3, 5, 8, 14]))
    top = 4 if rng.random() < .5 else max(1, c["max"] // 256)
    new_sizes = lambda: {f: min(256 * rng.randint(1, top), c["max"] + (256 if not c["wm"] and rng.random() < .1 else 0)) for f in files}
    sizes = new_sizes()
    hot = rng.sample(files, max(1, len(files) // 3))
    skew = rng.choice([.2, .5, .8])
    t, ops = 0, []
    ptime = rng.choice([.05, .3, .8])
    pclear = rng.choice([0, .02, .06])
    while len(ops) < n:
        x = rng.random()
        if x < pclear:
            o = rng.choice(["clearStats", "clearStats", "clearStats", "clearFiles", "clear", "dump"])
            ops.append(dict(op=o))
            if o in ("clear", "clearFiles") and rng.random() < .5:
                sizes = new_sizes()
        else:
            if rng.random() < ptime:
                t += rng.choice([1, 60, 3600, 20000])
            f = rng.choice(hot) if rng.random() < skew else rng.choice(files)
            ops.append(dict(op="get", f=f, s=sizes[f], p=rng.choice([0, 1]), c=rng.choice([0, 100, 400]), t=t, site=1, user=rng.randint(0, 3), ft=1))
    return scen(id, c, ops)


def get(f, s, t, rng):
    return dict(op="get", f=f, s=s, p=rng.choice([0, 1]), c=rng.choice([0, 100, 400]), t=t, site=1, user=1, ft=1)


def decline(rng, id, c):
    """A value function well above zero which then falls request after request."""
    c.update(max=2048, wm=False, addeps=rng.choice([0, 100, 110, 110]), evceps=rng.choice([0, 100, 110, 110]), addunl=True, evcunl=True, bwm=1000)
    if c["evcfeats"]:
        c["evtype"] = rng.choice(["onFree", "onFree", "onK", "none" if c["addfeats"] else "onFree"])
        c["evk"] = rng.choice([20, 50])
    files = file_ids(rng, rng.choice([2, 3, 4]))
    big = {f: rng.choice([1280, 1536, 1792]) for f in files}
    t, ops = 0, []

    def ask(f):
        nonlocal t
        t += rng.choice([1, 60, 600])
        ops.append(get(f, big[f], t, rng))
    if c["rl"] == "SCDL":
        more = [f for f in file_ids(rng, 20) if f not in files]
        for f in more:
            big[f] = rng.choice([1024, 2048])
            for _ in range(rng.choice([3, 4])):
                ask(f)
            ops += [] if rng.random() < .9 else [dict(op="dump")]
    else:
        for _ in range(rng.choice([4, 5])):
            for f in files:
                ask(f)
        for f in rng.sample(files, rng.choice([1, 2])):
            for _ in range(rng.choice([20, 30, 50])):
                ask(f)
    if c["rl"] == "SCDL":
        for f in files:
            big[f] = rng.choice([512, 768])
        files = files + [f for f in file_ids(rng, 4) if f not in big]
        for f in files:
            big[f] = 768
    for _ in range(30):
        ask(files[_ % len(files)])
    return scen(id, c, ops)


def crowd_cfg(rng, c):
    """One or two groups of many files."""
    one = lambda n, vs, typ: dict(name=n, file=True, key=rng.choice(["buckets", "values"]), type=typ, vals=[rng.choice(vs)], open=True)
    whole = lambda n, typ: dict(name=n, file=True, key="values", type=typ, vals=[100000], open=False)
    split = rng.choice(["", "catSize", "catNumReq", "catDeltaLastRequest"])
    c["evcfeats"] = [one(n, vs, typ) if n == split else whole(n, typ)
                     for n, vs, typ in (("catSize", [256, 512], "float"), ("catNumReq", [1, 2], "int"), ("catDeltaLastRequest", [20, 40, 80], "int"))]
    if rng.random() < .6:
        c["evcfeats"].append(dict(name="catPercOcc", file=False, key="values", type="float", vals=sorted(rng.sample([25 * k // 8 for k in range(1, 32)], rng.choice([3, 12, 12, 31]))), open=True))
    c.update(wm=False, max=rng.choice([4096, 8192, 8192, 16384]), evtype=rng.choice(["none", "onFree", "onK", "onK", "onDayEnd"]),
             evk=rng.choice([15, 25, 40]), evceps=rng.choice([1000, 500, 100]))


def crowd(rng, id, c):
    crowd_cfg(rng, c)
    room = c["max"] // 256
    files = file_ids(rng, rng.choice([room, room + 8, room + room // 2]))
    sizes = {f: rng.choice([256, 256, 256, 512]) for f in files}
    t, ops = 0, []
    pclear = rng.choice([0, .03, .06])
    for k in range(rng.choice([60, 110])):
        t += rng.choice([0, 0, 1, 60, 3600])
        f = files[k % len(files)] if k < len(files) or rng.random() < .5 else rng.choice(files)
        ops.append(get(f, sizes[f], t, rng) if rng.random() >= pclear else dict(op=rng.choice(["clearStats", "clearStats", "clearStats", "dump", "delmiss"] if c.get("log") else ["clearStats", "clearStats", "dump"])))
    return scen(id, c, ops)


def tab_file(ctx):
    fn = ctx.path("tabs.json")
    json.dump([dict(d=x["d"], t=x["t"]) for x in tabs(DECAYS, 4000)], open(fn, "w"))
    return fn


def ai_model(depth, rl, evtype, add, evc, wide):
    """A small cache: three files of different sizes, two or four categories."""
    cfgs = [base_cfg("aiRL", u=1, max=1024, seed=11, bwm=1, rl=rl, evtype=ev, evk=1, draws=100,
                     addfeats=[dict(name="hitRate", file=False, key="values", type="float", vals=[50], open=True)] if ad else [],
                     evcfeats=[dict(name="catNumReq", file=True, key="values", type="int", vals=[1], open=True),
                               dict(name="catSize", file=True, key="values", type="float", vals=[512], open=True)] if evc else [],
                     addeps=500, adddec=500, evceps=500, evcdec=500, addunl=True, evcunl=True)
            for ev in evtype for ad in add]
    ops = [mop(1, 256, 60), mop(2, 512, 60), mop(3, 512, 60), dict(op="clearStats")]
    if wide:
        ops += [mop(4, 1024, 60), dict(op="clearFiles")]
    return dict(name="%s-%s" % (rl, "evc" if evc else "lru"), cfgs=cfgs, ops=ops, depth=depth)


def ai_check(ctx, modes, n):
    rng = ctx.rng
    binary = ctx.build()
    tf = tab_file(ctx)
    sc = []
    if ctx.prop == "C30":
        models = [ai_model(4 if ctx.quick else 5, "SCDL2", ["none", "onK", "onDayEnd", "onFree"], [False], True, not ctx.quick),
                  ai_model(4 if ctx.quick else 5, "SCDL2", ["onDayEnd"] if ctx.quick else ["none", "onK", "onDayEnd", "onFree"], [True], True, False)]
    else:
        models = [ai_model(5 if ctx.quick else 7, "SCDL", ["none"], [True], False, not ctx.quick),
                  ai_model(5 if ctx.quick else 7, "SCDL2", ["none"], [True], False, not ctx.quick)]
    for k, m in enumerate(models):
        fn = ctx.path("mc%d.json" % k)
        json.dump(m, open(fn, "w"))
        scripts = ctx.model_check("AiMC", {"MCCFG": fn, "TABS": tf}, "AiMC[%s]" % m["name"])
        got, tot = scripts_to_scen(scripts, m, "m%d_" % k, rng, 300 if ctx.quick else 3000)
        ctx.mc[-1]["replayed"], ctx.mc[-1]["maximal_scripts"] = len(got), tot
        sc += got
    sc += [ai_history(rng, "h%d" % k, modes[k % len(modes)], rng.choice([30, 60, 100])) for k in range(n if ctx.quick else n * 12)]
    many = 24 if ctx.quick else 300
    if ctx.prop == "C30":
        sc += [crowd(rng, "c%d" % k, ai_cfg(rng, modes[k % len(modes)])) for k in range(many)]
    else:
        sc += [decline(rng, "d%d" % k, ai_cfg(rng, modes[k % len(modes)])) for k in range(many)]
    tr = ctx.execute(binary, sc, "a")
    ctx.log("%d scenarios executed" % len(sc))
    ctx.validate("AiTrace", sc, tr, env={"TABS": tf})


# ---------------------------------------------------------------- simulations
def ai_sim(rng, id, stages):
    from simgen import sim_records, sim_stage
    mode = rng.choice(["scdl", "scdl", "add", "add", "evc", "both", "none"])
    c = ai_cfg(rng, mode, every=10 ** 9, draws=0)
    if c["evcfeats"]:
        # one category and one state: otherwise caches with the same seed differ
        c["evcfeats"] = [dict(name="catSize", file=True, key="values", type="float", vals=[1000000], open=False)]
        if rng.random() < .5:
            c["evcfeats"].append(dict(name="catNumReq", file=True, key="values", type="int", vals=[1000000], open=False))
    c["reps"], c["rdec"] = rng.choice([300, 700, 900]), rng.choice([x for x in DECAYS if x != c["adddec"]])
    if rng.random() < .2:
        c["step"], c["maxday"] = 3600 * rng.choice([6, 24, 48]), 3600 * rng.choice([0, 5, 24, 48])
    if rng.random() < .2 and not c["wm"]:
        c["red"], c["bwm"], c["max"] = True, 1, 8192
    files = file_ids(rng, rng.choice([3, 5, 8]))
    top = 4 if rng.random() < .5 else max(1, c["max"] // 256)
    sizes = {f: min(256 * rng.randint(1, top), c["max"]) for f in files}
    t0, ops = 0, []
    for k in range(stages):
        data = sim_records(rng, c, rng.choice([20, 60, 120]), sizes, p_bad=rng.choice([0, .1]), t0=t0)
        t0 = data[-1]["t"] + 1920 * rng.randint(0, 60)
        st = sim_stage(rng, data, plain=rng.random() < .5)
        st["filt"] = rng.choice(["", "", "", "us"])
        st["load"] = k > 0 and ops[-1]["dump"] and rng.random() < .85
        # files kept over a restart may be as recent as new ones: an eviction agent chooses among them
        st["cold"] = st["load"] and (bool(c["evcfeats"]) or rng.random() < .3)
        if k < stages - 1:
            st["dump"] = rng.random() < .9
        ops.append(st)
    return scen(id, c, ops, "sim")


def ai_sim_check(ctx, n):
    rng = ctx.rng
    binary = ctx.build()
    tf = tab_file(ctx)
    sims = [ai_sim(rng, "h%d" % k, rng.choice([1, 2, 2, 3])) for k in range(n if ctx.quick else n * 12)]
    # the operations the simulations consist of, by the specification
    byid = {}
    step = 600
    for at in range(0, len(sims), step):
        fn = ctx.path("sims%d.ndjson" % at)
        with open(fn, "w") as f:
            for s in sims[at:at + step]:
                f.write(json.dumps(dict(id=s["id"], ops=s["ops"])) + "\n")
        for line in ctx.model_check("SimScript", {"SCEN": fn, "TABS": tf}, "SimScript"):
            d = json.loads(line)
            byid[d["id"]] = d["stages"]
    twins, marks = [], {}
    for s in sims:
        ops, mk = [], []
        for k, (st, g) in enumerate(zip(s["ops"], byid[s["id"]])):
            if k > 0 and not st["load"]:
                ops.append(dict(op="fresh"))
            rows = []
            for o in g["ops"]:
                ops.append(o)
                if o["op"] == "delmiss":
                    rows.append(len(ops))
            final = len(ops)
            if ops:
                ops[-1] = dict(ops[-1], obs=True)
            if st["dump"]:
                ops.append(dict(op="dump", nofs=not st["dumpfs"], obs=True))
            mk.append((rows, final, len(ops), g["dates"]))
        twins.append(scen(s["id"], s["cfg"], ops))
        marks[s["id"]] = mk
    tt = ctx.execute(binary, twins, "t")
    st = ctx.execute(binary, sims, "s")
    ctx.log("%d simulations and their twins executed" % len(sims))
    merged = {}
    for s in sims:
        out, tr = [], tt[s["id"]]
        for k, e in enumerate([r for r in st[s["id"]] if r["op"] in ("end", "init")][1:]):
            m = {x: e[x] for x in ("sid", "i", "op", "bad", "rows", "obs", "dobs", "hasdump", "tables", "panic") if x in e}
            m["cfg"] = {x: s["cfg"][x] for x in ("addfeats", "evcfeats")}
            m["dump"] = s["ops"][k]["dump"]
            rows, final, last, dates = marks[s["id"]][k]
            if last >= len(tr) or "panic" in tr[min(last, len(tr) - 1)]:
                m["panic"] = "asked directly: " + str(tr[-1].get("panic"))
            else:
                m["twin"] = dict(rows=[dict(obs=tr[j]["obs"], v=tr[j]["v"]) for j in rows], dates=dates, final=tr[final]["obs"], dumped=tr[last]["obs"] if m["dump"] else 0)
            out.append(m)
        merged[s["id"]] = out or [dict(sid=s["id"], i=0, op="end", panic=str(st[s["id"]][-1].get("panic")))]
    ctx.validate("SimAiTrace", sims, merged, env={"TABS": tf})


# ---------------------------------------------------------------- the program
RLK, EVK = "ai.rl.type", "ai.rl.eviction.type"


def ai_conf(rng):
    conf = {"cache.type": "aiRL", "window.stop": 1000, "window.size": 1, "data": "there"}
    v, u = rng.choice([(4, "G"), (8, "g"), (2048, "M"), (1, "G"), (None, None), (1, None), (6000, "m"), (2, "T")])
    if v is not None:
        conf["cache.size.value"] = v
    if u is not None:
        conf["cache.size.unit"] = u
    mode = rng.choice(["scdl", "add", "add", "both", "evc", "evc", "none"])
    if mode == "scdl":
        conf[RLK] = rng.choice(["SCDL", "SCDL", "scdl"])
    elif rng.random() < .5:
        conf[RLK] = rng.choice(["SCDL2", "SCDL2", "scdl2"])
    if rng.random() < (.6 if mode in ("both", "evc") else .4):
        conf[EVK] = rng.choice(["onK", "onK", "on_k", "onDayEnd", "on_day_end", "ONDAYEND", "onFree", "on_free", "ONFREE", "none", "None", "NoEviction"])
    if mode in ("scdl", "add", "both"):
        conf["ai.rl.addition.featuremap"] = "there"
    if mode in ("evc", "both"):
        conf["ai.rl.eviction.featuremap"] = "there"
    if rng.random() < .7:
        conf["ai.rl.eviction.k"] = rng.choice([0, 1, 2, 5, 8])
    rates(rng, conf)
    if rng.random() < .6:
        conf["seed"] = rng.randrange(1, 10 ** 6)
        if rng.random() < .5:
            conf["seedhi"] = rng.choice([1, -1, 7, -3, 1 << 20, -(1 << 20)])
    if rng.random() < .5:
        conf["cache.bandwidth.value"] = rng.choice([1, 10, 100, 1000, 10000, 25000])
    if rng.random() < .3:
        conf["region"] = rng.choice(["us", "it", "all", "xx"])
    if mode not in ("evc", "both") and rng.random() < .2 and u in ("G", "g", "M", "m") and v:
        conf["cache.watermarks"] = True
    elif rng.random() < .2 and v and u:
        conf["cache.stats.deltaDaysStep"] = 3600 * rng.choice([6, 24, 48])
        conf["cache.stats.maxNumDayDiff"] = 3600 * rng.choice([0, 6, 24])
    return conf


def rates(rng, conf):
    """Exploration rates and decays, in 1/10000000."""
    for a, p in (("", .6), ("addition.", .5), ("eviction.", .5)):
        for k, vals in (("start", [10000000, 5000000, 1100000, 0, 1000000]), ("decay", [50000, 200000, 1000000, 5000000, 42])):
            conf.pop("ai.rl.%sepsilon.%s" % (a, k), None)
            if rng.random() < p:
                conf["ai.rl.%sepsilon.%s" % (a, k)] = rng.choice(vals)
                if a and rng.random() < .15:
                    conf["ai.rl.%sepsilon.%s" % (a, k)] = -10000000
        conf.pop("ai.rl.%sepsilon.unleash" % a, None)
        if rng.random() < .6:
            conf["ai.rl.%sepsilon.unleash" % a] = rng.random() < (.3 if not a else .5)


def ai_cmd(rng, id):
    from simgen import sim_records
    base = ai_conf(rng)
    evc = "ai.rl.eviction.featuremap" in base
    if evc:
        ef = [dict(name="catSize", file=True, key="values", type="float", vals=[100000000], open=False)]
    else:
        ef = []
    af = add_feats(rng) if "ai.rl.addition.featuremap" in base else []
    mb = {"m": 1, "g": 1024, "t": 1 << 20}[base.get("cache.size.unit", "T").lower()] * base.get("cache.size.value", 100)
    mx = min(mb, 8192)
    files = file_ids(rng, rng.choice([3, 5, 8]))
    sizes = {f: 256 * rng.randint(1, min(mx, 2048) // 256) for f in files}
    t0, runs, dumped = 0, [], False
    for k in range(rng.choice([1, 2, 2, 3])):
        conf = dict(base)
        if k > 0:
            conf["overwrite"] = True
            if rng.random() < .5:
                rates(rng, conf)
            if dumped and rng.random() < .8:
                conf["loaddump"] = True
                if evc or rng.random() < .3:
                    conf["coldstart"] = True
                    if rng.random() < .5:
                        conf["coldstartnostats"] = True
        if rng.random() < .8:
            conf["dump"] = True
            if rng.random() < .2:
                conf["dumpfilesandstats"] = False
        if rng.random() < .12:
            conf.pop("loaddump", None)
            k2 = rng.randrange(4)
            if k2 == 0:
                conf[RLK] = rng.choice(["SCDL3", "", "Scdl2", "SCDL-2"])
            elif k2 == 1:
                conf[EVK] = rng.choice(["onk", "onDay", "on_k ", "never"])
            elif k2 == 2:
                conf["ai.rl.addition.featuremap"] = "missing"
            else:
                conf["ai.rl.eviction.featuremap"] = "missing"
            if k2 in (0, 1) and RLK not in base and EVK not in base and rng.random() < .3:
                conf["cache.size.unit"] = "K"
        data = sim_records(rng, dict(type="aiRL"), rng.choice([20, 60, 120]), sizes, p_bad=rng.choice([0, .1]), t0=t0)
        t0 = data[-1]["t"] + 1920 * rng.randint(0, 60)
        runs.append((conf, data))
        # a run which is refused leaves the dump which was there
        spoiled = any(conf.get(x) != base.get(x) for x in (RLK, EVK, "ai.rl.addition.featuremap", "ai.rl.eviction.featuremap", "cache.size.unit"))
        if conf.get("dump") and not spoiled:
            dumped = True
    return id, runs, af, ef


def ai_cmd_check(ctx, n):
    import cmdgen
    rng = ctx.rng
    binary = ctx.build()
    ctx.build("vsim", pkg=".")
    ctx.env = dict(ctx.env, VSIM_BIN=ctx.path("vsim"))
    tf = tab_file(ctx)
    plans = [ai_cmd(rng, "h%d" % k) for k in range(n if ctx.quick else n * 10)]
    fn = ctx.path("confs.ndjson")
    with open(fn, "w") as f:
        for id, runs, _, _ in plans:
            f.write(json.dumps(dict(id=id, confs=[r[0] for r in runs])) + "\n")
    byid = {}
    for line in ctx.model_check("AiConfig", {"SCEN": fn, "TABS": tf}, "AiConfig"):
        d = json.loads(line)
        byid[d["id"]] = d["runs"]
    progs, twins = [], []
    for id, runs, af, ef in plans:
        po, to = [], []
        wide = rng.random() < .4
        for (conf, data), w in zip(runs, byid[id]):
            c = dict(w["c"], seedhi=conf.get("seedhi", 0), wide=wide, addfeats=af if w["c"]["adds"] else [], evcfeats=ef if w["c"]["evcs"] else [])
            w["c"] = c
            po.append(dict(conf=conf, yaml=cmdgen.yaml(rng, conf), cfgname=rng.choice(["config.yaml", "ai.conf.yml"]), c=c,
                           parts=1, gz=rng.random() < .3, rel=rng.random() < .5, ds=[], dumpf="cache_dump.json.gz", data=data))
            if w["how"] == "run":
                to.append(dict(w["st"], c=c, parts=1, gz=False, delay=1e9, data=data))
        progs.append(scen(id, dict(type="aiRL", coins=0, wide=wide), po, "cmd"))
        twins.append(scen(id, dict(type="aiRL", u=1, wide=wide), to, "sim"))
    pt = ctx.execute(binary, progs, "p")
    tt = ctx.execute(binary, twins, "t")
    ctx.log("%d sequences of runs executed" % len(progs))
    merged = {}
    for p in progs:
        tw = [r for r in tt[p["id"]] if r["op"] in ("end", "init")][1:]
        out, dirs, loads = [], [], 0
        for w, e in zip(byid[p["id"]], [r for r in pt[p["id"]] if r["op"] in ("end", "init")][1:]):
            m = {x: e[x] for x in ("sid", "i", "op", "rc", "chg", "dirs", "bad", "rows", "rs", "dobs", "hasdump", "tables", "kept", "keptok", "panic") if x in e}
            m["spec"], m["before"] = dict(how=w["how"], name=w["name"], st=w["st"]), dirs
            dirs = e.get("dirs", dirs)
            if w["how"] == "run":
                loads += w["st"]["load"]
                t = tw.pop(0) if tw else dict(panic="no simulation")
                if "panic" in t:
                    m["panic"] = "simulated directly: " + str(t["panic"])
                m["twin"] = {x: t[x] for x in ("rows", "rs", "tables", "dobs") if x in t}
            m["loads"] = loads
            out.append(m)
        merged[p["id"]] = out or [dict(sid=p["id"], i=0, op="end", panic=str(pt[p["id"]][-1].get("panic")))]
    ctx.validate("AiConfigTrace", progs, merged, env={"TABS": tf})


# ---------------------------------------------------------------- the eviction agent
def learn_cfg(rng):
    c = ai_cfg(rng, rng.choice(["evc", "evc", "both"]))
    one = lambda vs: sorted(rng.sample(vs, 1))
    # few groups: a handful of choices per call
    names = ["catSize", "catNumReq", "catDeltaLastRequest"]
    split = rng.sample(names, rng.choice([1, 1, 2]))
    feats = []
    for n in names:
        vals = {"catSize": [512, 1024], "catNumReq": [1, 2, 3], "catDeltaLastRequest": [2, 5, 10, 20]}[n]
        f = dict(name=n, file=True, key=rng.choice(["buckets", "values"]), type="float" if n == "catSize" else "int",
                 vals=one(vals) if n in split else [100000], open=n in split)
        feats.append(f)
    if rng.random() < .3:
        n = rng.choice(["catPercOcc", "percOcc", "hitRate"])
        feats.append(dict(name=n, file=False, key="values", **EVCF[n](rng)))
    rng.shuffle(feats)
    if rng.random() < .35:
        feats = evc_feats(rng)
    c.update(evcfeats=feats, log=True, draws=0, xdraws=3000, evceps=rng.choice([1000, 1000, 500, 300, 100, 0]),
             evtype=rng.choice(["onK", "onK", "onK", "onFree", "onFree", "onDayEnd", "none"]), evk=rng.choice([0, 1, 2, 4]))
    return c


def learn_history(rng, id, n):
    c = learn_cfg(rng)
    files = file_ids(rng, rng.choice([3, 4, 6, 8, 14]))
    c["max"] = rng.choice([1024, 2048, 4096, 8192])
    new_sizes = lambda: {f: 256 * rng.randint(1, max(1, min(4, c["max"] // 512))) for f in files}
    tight = rng.random() < .4
    if tight:
        # room is missing all the time
        c.update(max=1024, evtype=rng.choice(["onK", "onDayEnd"]), evk=rng.choice([3, 9, 30]), evceps=rng.choice([1000, 1000, 500]))
        files = file_ids(rng, rng.choice([5, 8, 14]))
        new_sizes = lambda: {f: rng.choice([256, 512, 512, 768]) for f in files}
        if rng.random() < .4:
            # many states, those of different groups far apart
            f = dict(file=True, key="values", open=False)
            c["evcfeats"] = [dict(f, name="catSize", type="float", vals=[rng.choice([256, 512])], open=True),
                             dict(f, name="catNumReq", type="int", vals=[100000]), dict(f, name="catDeltaLastRequest", type="int", vals=[100000]),
                             dict(name="percOcc", file=False, key="values", type="float", vals=[25 * k // 8 for k in range(1, 32)] + [200], open=False),
                             dict(name="hitRate", file=False, key="values", type="float", vals=rng.choice([[25, 50, 75], [50]]), open=True)]
            if rng.random() < .5:
                c["evcfeats"][1].update(vals=[rng.choice([1, 2])], open=True)
    sizes = new_sizes()
    t, ops = 0, []
    ptime = rng.choice([.05, .3, .8])
    pclear = rng.choice([0, .04, .1])
    while len(ops) < n:
        if rng.random() < pclear:
            o = rng.choice(["clearStats"] * 4 + ["clearFiles", "clear", "dump", "delmiss", "delmiss"] + ["clearFiles"] * 4 * tight)
            ops.append(dict(op=o))
            if o in ("clear", "clearFiles") and rng.random() < .5:
                sizes = new_sizes()
        else:
            if rng.random() < ptime:
                t += rng.choice([1, 60, 3600, 20000])
            f = rng.choice(files)
            ops.append(dict(op="get", f=f, s=sizes[f], p=rng.choice([0, 1]), c=rng.choice([0, 100, 400]), t=t, site=1, user=1, ft=1))
    return scen(id, c, ops + [dict(op="terminate")])


def learn_check(ctx, n):
    rng = ctx.rng
    binary = ctx.build()
    tf = tab_file(ctx)
    sc = []
    m = ai_model(4 if ctx.quick else 5, "SCDL2", ["none", "onK", "onDayEnd", "onFree"], [False], True, not ctx.quick)
    fn = ctx.path("mc.json")
    json.dump(m, open(fn, "w"))
    scripts = ctx.model_check("AiMC", {"MCCFG": fn, "TABS": tf}, "AiMC[%s]" % m["name"])
    for c in m["cfgs"]:
        c.update(log=True, draws=0, xdraws=800)
    m["tail"] = [dict(op="delmiss"), dict(op="terminate")]
    got, tot = scripts_to_scen(scripts, m, "m", rng, 200 if ctx.quick else 3000)
    ctx.mc[-1]["replayed"], ctx.mc[-1]["maximal_scripts"] = len(got), tot
    for s in got:
        s["cfg"].update(seed=rng.randrange(1, 10 ** 6), evceps=rng.choice([1000, 500, 0]))
    sc += got
    sc += [learn_history(rng, "h%d" % k, rng.choice([20, 30, 50, 80])) for k in range(n if ctx.quick else n * 12)]
    many = 20 if ctx.quick else 250
    sc += [dict(x, ops=x["ops"] + [dict(op="terminate")]) for x in
           [decline(rng, "d%d" % k, learn_cfg(rng)) for k in range(many)] + [crowd(rng, "c%d" % k, learn_cfg(rng)) for k in range(many)]]
    tr = ctx.execute(binary, sc, "l")
    ctx.log("%d scenarios executed" % len(sc))
    for s in sc:
        recs = tr[s["id"]]
        logs = []
        for r in recs:
            if "log" in r:
                logs.append(r["log"])
                r["log"] = 0
        recs[0]["logs"] = logs
    lost = []
    ctx.validate("AiLearnTrace", sc, tr, env={"TABS": tf}, lines=lambda l: lost.append(json.loads(l[5:])) if l.startswith("LOST ") else None)
    ctx.notes.append("scenarios followed to their end: %d of %d (the others as long as the courses of events which agree with what was seen were few: %s)"
                     % (len(sc) - len(lost), len(sc), sorted(x["i"] for x in lost)[:20]))

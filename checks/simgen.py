"""Scenarios for the simulations and the datasets."""
import json, re
from cachegen import *

FILTERS = ["", "", "us", "it", "usNoFnal", "usNoLpc", "usData"]
COLUMNS = "Filename,SiteName,UserID,TaskID,TaskMonitorID,JobID,Protocol,JobExecExitCode,JobStart,JobEnd,NumCPU,WrapWC,WrapCPU,Size,DataType,FileType,JobLengthH,JobLengthM,JobSuccess,CPUTime,IOTime,reqDay,Region,Campaign,Process".split(",")
TRUE, FALSE = ["True", "true", "1", "T", "t", "TRUE"], ["False", "false", "0", "F", "f", "FALSE", "", "x"]


def sim_cfg(rng, types, mix=True):
    typ = rng.choice(types)
    c = rand_cfg(rng, typ)
    c["max"] = min(c["max"], 64)
    if typ == "infinite":
        c["max"] = rng.choice([1, 4])
    if typ == "weightFunLRU":
        c["max"] = rng.choice([3, 5, 8, 16])
        if c["wf"] == "FuncMultiplicative":
            c["alpha"] = min(c["alpha"], 1)
    if mix:
        r = rng.random()
        if r < .2 and typ not in ("infinite",):
            c["wm"] = True
            c["u"], c["max"] = 1, rng.choice([8, 16])
            c["hi"], c["lo"] = rng.choice([(95, 75), (90, 50), (75, 50), (50, 25), (100, 75)])
        elif r < .4 and typ not in ("infinite", "weightFunLRU"):
            c["red"] = True
            c["u"], c["bwm"] = rng.choice([1, 1, 4]), rng.choice([1, 1, 2])
            c["max"] = c["u"] * rng.choice([4000, 8192])
        elif r < .5 and typ != "weightFunLRU":
            c["step"], c["maxday"] = 3600 * rng.choice([6, 24, 48]), 3600 * rng.choice([0, 5, 24, 48])
    return c


def sim_records(rng, c, n, sizes, p_bad=.25, back=False, t0=0):
    files = list(sizes)
    hot = rng.sample(files, max(1, len(files) // 3))
    t, out = t0, []
    w = c["type"] == "weightFunLRU"
    short = [0, 1920, 3840] if w else [0, 60, 600, 3600, 20000]
    long_ = [82560, 84480, 86400, 192000] if w else [82799, 82800, 82801, 86400, 90000, 200000]
    pl = rng.choice([.05, .15, .4])
    day = 0
    for _ in range(n):
        if rng.random() < pl or day > 40:
            t += rng.choice(long_); day = 0
        else:
            t += rng.choice(short)
        day += 1
        f = rng.choice(hot) if rng.random() < .5 else rng.choice(files)
        good = rng.random() >= p_bad
        cpu = rng.choice([0, 400, 100, 200, rng.randint(0, 400)])
        io = 400 - cpu
        if not good and rng.random() < .5:
            cpu, io = rng.choice([(0, 0), (5, -5), (-100, 500), (500, -100), (-100, -300), (-1, 401), (401, -1), (100, -400), (-400, 0)])
        ok, ex = True, 0
        if not good and rng.random() < .5:
            ok, ex = rng.choice([(False, 0), (True, 1), (False, 50), (True, -1)])
        r = dict(t=t - (rng.choice([0, 60, 50000, 100000]) if back and rng.random() < .1 and t > 200000 else 0), f=f, s=sizes[f],
                 p=rng.choice([0, 1, 1, 2]), cpu=cpu, io=io, site=rng.choice([0, 1, 8, 8, 9, 10, 16, 17, 3]), user=rng.randint(0, 5),
                 dt=rng.choice([0, 0, 0, 1, 2, 3, 3, 4]), ft=rng.choice([2, 2, 2, 9, 9, 0, 1, 3, 10]), ok=ok, ex=ex)
        if rng.random() < .2:
            r["b"] = rng.choice(TRUE if ok else FALSE)
        out.append(r)
    return out


def sim_stage(rng, data, plain=False, **kw):
    st = dict(win=rng.choice([1, 1, 2, 3, 7]), wstart=0, wstop=1000, filt=rng.choice(FILTERS), dump=rng.random() < .7,
              dumpfs=rng.random() < .85, load=False, cold=False, coldns=rng.random() < .5, parts=rng.choice([1, 1, 2, 4]),
              gz=rng.random() < .4, delay=rng.choice([0, 1e9]), data=data)
    if not plain:
        if rng.random() < .4:
            st["wstart"] = rng.choice([0, 1, 1, 2, 3])
        if rng.random() < .4:
            st["wstop"] = rng.choice([st["wstart"] + 1, st["wstart"] + 2, 1, 5])
    st.update(kw)
    return st


def sim_sizes(rng, c, nf):
    fs = file_ids(rng, nf)
    if c["red"]:
        return {f: c["u"] * rng.choice([270, 540, 540, 1080, 500, 1620]) + (rng.randrange(c["u"]) if rng.random() < .4 else 0) for f in fs}
    return file_sizes(rng, fs, min(c["max"], 64))


def enlarge_sim(rng, c, stages):
    """sizes which need more than 24 bits"""
    tot = sum(r["s"] for st in stages for r in st["data"]) + 1
    k = min(20 * 10 ** 6 // c["max"], 10 ** 9 // tot)
    if k < 1000:
        return
    if c["wm"]:
        k = 1 << (k.bit_length() - 1)       # the same rounding as the small history
    c["max"] *= k
    odd = {}
    for st in stages:
        for r in st["data"]:
            r["s"] = r["s"] * k - (0 if c["wm"] else odd.setdefault((r["f"], r["s"]), rng.choice([0, 1, 1, rng.randint(0, k // 2)])))


def sim_scen(rng, id, types, stages=1, n=(20, 60, 120), mix=True, back=False):
    c = sim_cfg(rng, types, mix)
    if c["type"] == "lruDatasetVerifier":
        pass
    sizes = sim_sizes(rng, c, rng.choice([2, 4, 8]))
    if c["type"] == "lruDatasetVerifier":
        c["ds"] = rng.sample(sorted(sizes), rng.randint(1, len(sizes)))
    t0, ops = 0, []
    for k in range(stages):
        data = sim_records(rng, c, rng.choice(n), sizes, p_bad=rng.choice([0, .1, .4]), back=back and c["type"] != "weightFunLRU", t0=t0)
        if data and (not back or rng.random() < .7):
            t0 = data[-1]["t"] + 1920 * rng.randint(0, 60)
        st = sim_stage(rng, data)
        if k > 0:
            st["load"] = ops[-1]["dump"] or (any(o["dump"] for o in ops) and rng.random() < .7)
            st["cold"] = rng.random() < .3
        if k < stages - 1 and rng.random() < .8:
            st["dump"] = True
        ops.append(st)
    if rng.random() < .15 and c["u"] == 1 and not c["red"] and c["type"] != "weightFunLRU":
        enlarge_sim(rng, c, ops)
    return scen(id, c, ops, "sim")


def sim_scripts(scripts, m, prefix, rng, limit):
    seqs = set()
    for s in scripts:
        nums = [int(x) for x in re.findall(r"-?\d+", s)]
        seqs.add((nums[0], tuple(nums[1:])))
    seqs = sorted(seqs)
    keep = [a for a, b in zip(seqs, seqs[1:] + [(None, ())]) if not (a[0] == b[0] and b[1][:len(a[1])] == a[1])]
    tot = len(keep)
    if len(keep) > limit:
        keep = rng.sample(keep, limit)
    out = []
    for n, (c, idx) in enumerate(keep):
        clock, ops = 0, []
        for i in idx:
            if i < 0:
                ops.append(dict(m["stages"][-i - 1], data=[], parts=1, gz=False, delay=1e9))
            else:
                r = dict(m["recs"][i - 1])
                clock += r.pop("d")
                r["t"] = clock
                ops[-1]["data"].append(r)
        out.append(scen("%s%d" % (prefix, n), dict(m["cfgs"][c - 1]), ops, "sim"))
    return out, tot


def srec(f, s, d, **kw):
    r = dict(f=f, s=s, d=d, p=1, cpu=200, io=200, site=1, user=1, dt=0, ft=2, ok=True, ex=0)
    r.update(kw)
    return r


def mstage(**kw):
    st = dict(win=1, wstart=0, wstop=1000, filt="", dump=False, dumpfs=True, load=False, cold=False, coldns=False)
    st.update(kw)
    return st


def sim_check(ctx, models, scenarios, limit):
    binary = ctx.build()
    allsc = []
    for k, m in enumerate(models):
        fn = ctx.path("sim%d.json" % k)
        json.dump(m, open(fn, "w"))
        scripts = ctx.model_check("SimMC", {"MCCFG": fn}, "SimMC[%s]" % m.get("name", k))
        sc, tot = sim_scripts(scripts, m, "s%d_" % k, ctx.rng, limit)
        ctx.mc[-1]["replayed"] = len(sc)
        ctx.mc[-1]["maximal_scripts"] = tot
        allsc += sc
    allsc += scenarios
    traces = ctx.execute(binary, allsc, "s")
    ctx.log("%d simulations executed" % len(allsc))
    ctx.validate("SimTrace", allsc, traces)
    ctx.log("simulations judged")


# ---------------------------------------------------------------- datasets
EXTS = [".csv", ".csv", ".gz", ".gzip", ".csv.gz", ".txt", "", ".csv.bak", ".GZ", ".json", ".tar.gz", ".csvx"]


def read_file(rng, name, rows, std=None, ext=""):
    std = rng.random() < .35 if std is None else std
    cols = list(COLUMNS)
    if not std:
        extra = rng.sample(["Extra", "index", "Unnamed: 0", "filename", "Size2", "JobSuccess_"], rng.choice([0, 0, 1, 3]))
        cols = cols + extra
        k = rng.random()
        if k < .4:
            rng.shuffle(cols)
        elif k < .7:
            i, j = rng.sample(range(len(cols)), 2)
            cols[i], cols[j] = cols[j], cols[i]
        else:
            i = rng.randrange(len(cols))
            cols = cols[i:] + cols[:i]
    data = [[rng.randint(0, 1) if c == "JobSuccess" else rng.choice([0, 1, 7, 1000, rng.randint(0, 10 ** 6)]) if c != "JobExecExitCode" else rng.choice([0, 0, 1, 50, 8001])
             for c in cols] for _ in range(rows)]
    return dict(name=[ord(ch) for ch in name], gz=ext in (".gz", ".gzip"), dir=False, cols=cols, rows=data, b=rng.randrange(6))


def read_ext(name):
    return name[name.rindex("."):] if "." in name else ""


def read_scen(rng, id, rows=(0, 1, 3, 20)):
    ops = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .5:
            name = "data" + rng.choice([".csv", ".csv.gz", ".gzip", ".gz", ".txt", ".dat"])
            ops.append(dict(op="file", files=[read_file(rng, name, rng.choice(rows), ext=read_ext(name))]))
        else:
            files, names = [], set()
            for _ in range(rng.randint(1, 6)):
                stem = rng.choice(["results_2018-01-%02d" % rng.randint(1, 31), "part%d" % rng.randint(0, 12), "a", "B", "b.c", "_x", "Z9"])
                name = stem + rng.choice(EXTS)
                if name in names or name in (".", ".."):
                    continue
                names.add(name)
                files.append(read_file(rng, name, rng.choice(rows), ext=read_ext(name)))
            if rng.random() < .2 and "sub" not in names:
                files.append(dict(name=[ord(x) for x in "sub"], gz=False, dir=True, cols=[], rows=[], b=0))
            rng.shuffle(files)
            ops.append(dict(op="folder", files=files))
        ops[-1]["wide"] = rng.random() < .4
    return scen(id, {}, ops, "read")

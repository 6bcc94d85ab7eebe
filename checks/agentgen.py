"""Scenarios for the Q-learning agents and their feature maps (C28, C29)."""
import json, math
from cachegen import scen

ACTS = {"add": [-7, -6], "evc": [-5, -4, -3, -2, -1]}
DECAYS = [5, 20, 100, 500]
STEPS = 600


def tabs(ds, steps=STEPS):
    return [dict(d=d, t=[round(1e6 * (.1 + .9 * math.exp(-d / 1000 * k))) for k in range(steps)]) for d in ds]


def rand_feats(rng, big=False):
    n = rng.choice([1, 1, 2, 2, 3, 4])
    out = []
    room = 60 if big else 24
    for k in range(n):
        typ = rng.choice(["int", "float", "int", "float", "string", "bool"])
        size = rng.choice([1, 2, 2, 3, 4, 6])
        size = max(1, min(size, room))
        if typ == "bool":
            size = min(size, 2)
        opn = typ in ("int", "float") and rng.random() < .6 and size > 1
        if typ in ("int", "float"):
            vals = sorted(rng.sample(range(0, rng.choice([6, 40, 100000, 20000000])) if rng.random() < .9 else range(0, 12), size - (1 if opn else 0)))
        elif typ == "string":
            vals = rng.sample(range(0, 9), size)
        else:
            vals = rng.sample([0, 1], size)
        room //= size
        out.append(dict(name="f%d" % k, type=typ, vals=vals, open=opn, file=rng.random() < .5, key=rng.choice(["buckets", "values"])))
    rng.shuffle(out)
    return out


def sizes(feats):
    return [len(f["vals"]) + (1 if f["open"] else 0) for f in feats]


def nstates(feats):
    n = 1
    for s in sizes(feats):
        n *= s
    return n


def agent_cfg(rng, big=False):
    return dict(role=rng.choice(["add", "evc"]), feats=rand_feats(rng, big), eps=rng.choice([1000, 1000, 500, 100, 101, 50, 0, 300]),
                dec=rng.choice(DECAYS), unl=rng.random() < .7, seed=rng.randrange(1 << 20), seedhi=rng.choice([0, 0, 1, -1, 9, -70000]), gz=rng.choice([".json", ".json", ".json.gz", ".gzip"]),
                tabs=tabs(DECAYS))


def near(rng, f):
    if f["type"] in ("int", "float"):
        return max(0, rng.choice(f["vals"] or [0]) + rng.choice([-1, 0, 0, 1, 1, 2, 1000000])) if rng.random() < .9 else rng.choice([0, 1, 100000000])
    return rng.choice(f["vals"] + ([0, 1] if f["type"] == "bool" else [0, 11]))


def agent_history(rng, id, n):
    c = agent_cfg(rng)
    ns, acts = nstates(c["feats"]), ACTS[c["role"]]
    mode = rng.choice(["learn", "learn", "explore", "memory", "all"])
    hot = [rng.randrange(ns) for _ in range(3)]      # states visited often
    st = lambda: rng.choice(hot) if rng.random() < .7 else rng.randrange(ns)
    ops, tick = [], 0
    for _ in range(n):
        m = mode if mode != "all" else rng.choice(["learn", "explore", "memory"])
        x = rng.random()
        if m == "learn":
            if x < .6:
                s = st()
                ops.append(dict(op="upd", s=s, s2=s if rng.random() < .3 else st(), a=rng.choice(acts), r=rng.choice([-12, -8, -4, -4, 4, 4, 8, 12, 0, 1, -3, 40])))
            elif x < .85:
                ops.append(dict(op="best", s=st(), a=rng.randrange(len(acts))))
            elif x < .95:
                ops.append(dict(op="cov"))
            elif x < .96:
                ops.append(dict(op="resettable"))
            elif x < .97:
                ops.append(dict(op="resetq"))
            elif x < .98:
                ops.append(dict(op="upd", s=st(), s2=st(), a=rng.choice([-9, 0, 1] + ACTS["evc" if c["role"] == "add" else "add"]), r=4))
            elif x < .99:
                ops.append(dict(op="restore"))
            else:
                ops.append(dict(op="params", e=rng.choice([1000, 500, 100, 50]), d=rng.choice(DECAYS)))
        elif m == "explore":
            if x < .8:
                ops.append(dict(op="eps"))
            elif x < .9:
                ops.append(dict(op="unleash", e=rng.choice([-1, -1, 500, 500, 999, 1000, 1000, 250])))
            elif x < .97:
                ops.append(dict(op="params", e=rng.choice([1000, 500, 100, 101, 50, 0]), d=rng.choice(DECAYS)))
            else:
                ops.append(dict(op="restore"))
        else:
            tick += 1
            k = rng.choice([1, 1, 1, 1, 2, 3])
            if x < .85:
                for _ in range(rng.choice([1, 1, 1, 10, 40])):
                    tick += 1
                    ops.append(dict(op="save", k=k, s=st(), a=rng.choice(acts), n=tick, nlim=rng.random() < .15))
            elif x < .99:
                ops.append(dict(op=rng.choice(["remember", "memories", "memories", "forget"]), k=rng.choice([1, 2, 3, 4])))
            else:
                ops.append(dict(op=rng.choice(["forgetall", "restore"])))
    return scen(id, c, ops, "agent")


def map_history(rng, id):
    c = agent_cfg(rng, big=True)
    feats = c["feats"]
    ops = []
    for f in feats:
        ops.append(dict(op="value", f=f["name"]))
        for _ in range(8):
            ops.append(dict(op="index", f=f["name"], v=near(rng, f)))
    for _ in range(6):
        ops.append(dict(op="idxs", fs=[f["name"] for f in feats], l=[near(rng, f) for f in feats]))
    ns = nstates(feats)
    for _ in range(10):
        ops.append(dict(op="state", l=[rng.randrange(n) for n in sizes(feats)]))
    for _ in range(10):
        ops.append(dict(op="upd", s=rng.randrange(ns), s2=rng.randrange(ns), a=rng.choice(ACTS[c["role"]]), r=rng.choice([-4, 4, 9, 400, -3])))
    ops.append(dict(op="str"))
    ops.append(dict(op="restore"))
    ops.append(dict(op="str"))
    return scen(id, c, ops, "agent")


MCCFG = dict(role="add", feats=[dict(name="f0", type="int", vals=[1], open=True, file=True)], eps=1000, dec=100, unl=True, seed=1, gz=".json", tabs=tabs([100, 500]))


def agent_check(ctx):
    binary = ctx.build()
    sc = []
    for ops, q, d in (("learn", 3, 4), ("explore", 4, 6), ("memory", 5, 6)):
        for unl in ((True, False) if ops == "explore" else (True,)):
            cfg = dict(MCCFG, unl=unl)
            fn = ctx.path("agent-%s.json" % ops)
            with open(fn, "w") as f:
                f.write(json.dumps(cfg) + "\n")
            scripts = ctx.model_check("AgentMC", {"MCCFG": fn, "OPS": ops, "DEPTH": q if ctx.quick else d}, "AgentMC[%s]" % ops)
            scripts = [json.loads(x) for x in scripts]
            keep = [s for s in scripts if len(s) == max(map(len, scripts))]
            lim = 600 if ctx.quick else 6000
            if len(keep) > lim:
                keep = ctx.rng.sample(keep, lim)
            sc += [scen("m-%s%d-%d" % (ops, unl, n), cfg, s, "agent") for n, s in enumerate(keep)]
    sc += [agent_history(ctx.rng, "h%d" % k, ctx.rng.choice([30, 60, 120])) for k in range(240 if ctx.quick else 4000)]
    tr = ctx.execute(binary, sc, "a")
    ctx.validate("AgentTrace", sc, tr)


def map_check(ctx):
    binary = ctx.build()
    sc = [map_history(ctx.rng, "h%d" % k) for k in range(300 if ctx.quick else 5000)]
    tr = ctx.execute(binary, sc, "a")
    ctx.validate("AgentTrace", sc, tr)

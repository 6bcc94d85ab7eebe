"""Builds the executor from /repo, runs it, and lets TLC judge the traces."""
import hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(REPO, "SmartCache", "sim")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MEMORY = 6 << 30
CORES = int(os.environ.get("VCORES", 8))


class CheckError(Exception):
    """The check could not decide: exit code 2, never a verdict."""


class Hangs(Exception):
    """Operations of the code under test did not end, twice: a violation
    which is in Ctx.fails.  Nothing more is executed, or a change which makes
    thousands of histories hang would cost more time than there is."""


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


def go_env():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0; printf 'GO=%s\\0' \"$GO\""],
                         capture_output=True)
    for kv in out.stdout.split(b"\0"):
        if b"=" in kv:
            k, v = kv.decode("utf-8", "replace").split("=", 1)
            e[k] = v
    return e


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random("%s/%s" % (prop, seed))
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.mc = []
        self.fails = []          # (scenario record, index, [clauses], trace lines)
        self.lacks = {}          # what the stand-ins of libraries cannot do -> scenarios
        self.known = {}          # finding key -> example
        self.samples = []
        self.notes = []
        self.kinds = {}
        self.opcount = {}
        self.env = None

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------- build
    def build(self, name="vharness", extra=None, tags="", pkg="./vharness"):
        """go build of the executor inside the module of the simulator.

        extra: {path relative to the sim module: file in /verif} for files
        which are added to packages of the repository by overlay."""
        self.env = self.env or go_env()
        d = self.path("mod-" + name)
        os.makedirs(d, exist_ok=True)
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(SIM, f), os.path.join(d, f))
        repl = {}
        hd = os.path.join(VERIF, "harness")
        for f in sorted(os.listdir(hd)):
            if f.endswith(".go"):
                repl[os.path.join(SIM, "vharness", f)] = os.path.join(hd, f)
        for rel, src in (extra or {}).items():
            repl[os.path.join(SIM, rel)] = src
        # the initial capacity of the maps (a hint) is most of the run time of short histories
        for root in ("cache/queue", "cache/files"):
            for f in sorted(os.listdir(os.path.join(SIM, root))):
                src = os.path.join(SIM, root, f)
                if not f.endswith(".go") or src in repl:
                    continue
                text = open(src).read()
                new = re.sub(r"(estimatedNumFiles\s*=\s*)1 << 19", r"\g<1>1 << 12", text)
                if new != text:
                    dst = os.path.join(d, root.replace("/", "_") + "_" + f)
                    open(dst, "w").write(new)
                    repl[src] = dst
        ov = os.path.join(d, "overlay.json")
        json.dump({"Replace": repl}, open(ov, "w"))
        out = self.path(name)
        cmd = [self.env.get("GO", "go"), "build", "-modfile", os.path.join(d, "go.mod"), "-overlay", ov, "-o", out]
        if tags:
            cmd += ["-tags", tags]
        r = subprocess.run(cmd + [pkg], cwd=SIM, env=self.env, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("build failed:\n" + r.stderr[-3000:])
        return out

    # ------------------------------------------------------------- execute
    def execute(self, binary, scenarios, tag, retry=True):
        """Runs the scenarios; returns {sid: [trace records]}."""
        n = min(CORES, max(1, len(scenarios) // 4))
        chunks = [scenarios[i::n] for i in range(n)]
        res = {}
        with ThreadPoolExecutor(n) as ex:
            for part in ex.map(lambda k: self._exec_chunk(binary, chunks[k], "%s-%d" % (tag, k)), range(n)):
                res.update(part)
        for sid, tr in res.items():
            # what the stand-in of a library cannot do is not judged, nor what comes after it
            if "lacks" in tr[-1]:
                self.lacks[tr[-1]["lacks"]] = self.lacks.get(tr[-1]["lacks"], 0) + 1
                del tr[-1]["lacks"]
                if len(tr) > 1:
                    tr.pop()
        if self.fails:
            raise Hangs()
        return res

    def _exec_chunk(self, binary, chunk, tag):
        res = {}
        todo = list(chunk)
        k = 0
        timeouts, dead, t0 = {}, [], time.time()
        while todo:
            sp, tp = self.path("%s-%d.script" % (tag, k)), self.path("%s-%d.trace" % (tag, k))
            k += 1
            with open(sp, "w") as f:
                for s in todo:
                    f.write(json.dumps(s) + "\n")
            env = dict(self.env, GOMAXPROCS="2", GOTRACEBACK="single")
            wd = tempfile.mkdtemp(prefix="run-", dir=self.dir)
            env["TMPDIR"] = wd
            try:
                p = subprocess.run([binary, sp, tp], cwd=wd, env=env, capture_output=True, text=True,
                                   timeout=800, errors="replace", preexec_fn=limit_memory)
            except subprocess.TimeoutExpired:
                raise CheckError("the executor did not end")
            finally:
                shutil.rmtree(wd, ignore_errors=True)
            recs, intent = [], None
            try:
                with open(tp) as f:
                    for line in f:
                        if not line.endswith("\n"):
                            break
                        r = json.loads(line)
                        if "intent" in r:
                            intent = r
                        else:
                            recs.append(r)
                            intent = None
            except FileNotFoundError:
                pass
            os.remove(sp)
            if os.path.exists(tp):
                os.remove(tp)
            for r in recs:
                res.setdefault(r["sid"], []).append(r)
            err = p.stderr[-2000:]
            oom = p.returncode != 0 and ("out of memory" in p.stderr or "cannot allocate" in p.stderr)
            if p.returncode == 71 and recs and recs[-1].get("panic") == "TIMEOUT" or oom and intent is not None:
                # an operation which does not end, or takes all memory: once more, then no further
                sid = recs[-1]["sid"] if not oom else intent["sid"]
                sc = [s for s in todo if s["id"] == sid][0]
                if timeouts.get(sid):
                    tr = res.get(sid, [])
                    if oom:
                        tr.append(dict(intent["intent"], sid=sid, i=intent["i"], panic="out of memory"))
                    self.fails.append((sc, tr[-1]["i"], ["panic"], tr))
                    return res
                timeouts[sid] = 1
                res.pop(sid, None)
                todo = todo[todo.index(sc):]
                continue
            if p.returncode == 0:
                break
            if p.returncode < 0 or p.returncode not in (1, 2, 254, 255) or intent is None \
                    or oom or "HARNESS-ERROR" in err:
                raise CheckError("executor failed (%d): %s" % (p.returncode, err))
            # the code under test ended the process inside an operation
            sid = intent["sid"]
            ev = dict(intent["intent"])
            ev.update(sid=sid, i=intent["i"], panic="process ended: " + err.strip().splitlines()[0][:160] if err.strip() else "process ended")
            sc = [s for s in todo if s["id"] == sid][0]
            if ev.get("op") == "init":
                ev["cfg"] = sc["cfg"]
            res.setdefault(sid, []).append(ev)
            dead.append((sc, ev["i"], ["panic"], res[sid]))
            if time.time() - t0 > 150 and len(dead) > 9:
                self.fails += dead
                return res
            ids = [s["id"] for s in todo]
            todo = todo[ids.index(sid) + 1:]
        return res

    # ------------------------------------------------------------- TLC
    def tlc(self, module, env, cfg=None, workers=1, mem="2g", timeout=800, args=(), keep=None):
        md = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in env.items()})
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", gc, "-Djava.io.tmpdir=" + md, "-Xmx" + mem, "-Xss16m", "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg or module + ".cfg",
               *args, module + ".tla"]
        out = self.path("tlc-%s-%d.out" % (module, time.time_ns()))
        try:
            with open(out, "w") as f:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC did not end: " + module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        text = open(out, errors="replace").read()
        os.remove(out)
        return p.returncode, text

    def validate(self, module, scen, traces, env=None, strip=None, nproc=CORES, mem="3g", lines=None):
        """Judges the traces with a trace specification; fills self.fails."""
        byid = {s["id"]: s for s in scen}
        sids = [s["id"] for s in scen if s["id"] in traces]
        if len(sids) != len(scen):
            raise CheckError("no trace of %d scenarios" % (len(scen) - len(sids)))
        weight = {s: sum(1 + len(r.get("obs", {}).get("st", [])) for r in traces[s]) for s in sids}
        tot = sum(weight.values())
        n = max(1, min(nproc, tot // 1500, len(sids)))
        bins = [[0, []] for _ in range(n)]
        for s in sorted(sids, key=lambda x: -weight[x]):
            b = min(bins, key=lambda x: x[0])
            b[0] += weight[s]
            b[1].append(s)
        def judge(todo):
            fn = self.path("v-%s-%d-%d.ndjson" % (module, threading.get_ident(), time.time_ns()))
            recs = []
            with open(fn, "w") as f:
                for s in todo:
                    for r in traces[s]:
                        f.write(json.dumps(strip(r) if strip else r) + "\n")
                        recs.append((s, r["i"]))
            ev = {"TRACE": fn, "PROP": self.prop}
            ev.update(env or {})
            rc, text = self.tlc(module, ev, mem=mem)
            os.remove(fn)
            if rc == 0 and "Model checking completed. No error" in text:
                return text, None, ""
            if "The error occurred when TLC was evaluating" not in text or "OutOfMemory" in text or "StackOverflow" in text:
                raise CheckError("trace checking failed in %s (exit %s):\n%s" % (module, rc, text[-2500:]))
            # a record on which no step of the specification is defined
            at = [int(x) for x in re.findall(r"^(?:/\\ )?l = (\d+)$", text, re.M)]
            if not at or at[-1] >= len(recs):
                raise CheckError("trace checking failed in %s (exit %s):\n%s" % (module, rc, text[-2500:]))
            msg = re.search(r"Error: (?!The behavior|The error)(.*(?:\n.*){0,40}?)\n(?:Error:|The error)", text)
            return text, recs[at[-1]], (msg.group(1) if msg else "undefined").replace("\n", " ")[:200]
        def job(k):
            todo = list(bins[k][1])
            texts, odd = [], []
            while todo and len(odd) < 3:
                text, at, msg = judge(todo)
                texts.append(text)
                if at is None:
                    break
                # once more, by itself: the same record has to fail again
                text, again, msg = judge([at[0]])
                texts.append(text)
                if again is not None:
                    odd.append((again, msg))
                    if os.environ.get("VDEBUG"):
                        print(text[-6000:])
                else:
                    self.notes.append("an evaluation error of TLC did not come again: %s" % (at,))
                # what comes before it has been judged
                todo = todo[todo.index(at[0]) + 1:]
            return texts, odd
        with ThreadPoolExecutor(n) as ex:
            outs = list(ex.map(job, range(n)))
        for texts, odd in outs:
            fl = {}
            for (sid, i), msg in odd:
                fl[(sid, i)] = ["no step of the specification: " + msg]
            for line in "\n".join(texts).splitlines():
                m = re.match(r'^"?FAIL (\{.*\})"?$', line.strip())
                if m:
                    j = m.group(1)
                    if line.strip().startswith('"'):
                        j = j.replace('\\"', '"')
                    d = json.loads(j)
                    fl[(d["sid"], d["i"])] = d["what"]
                elif lines:
                    lines(line.strip().strip('"').replace('\\"', '"'))
            for text in texts:
                m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
                if m:
                    self.states += int(m.group(2))
                    self.transitions += int(m.group(1))
            for (sid, i), what in fl.items():
                hard = [w for w in what if not w.startswith("KNOWN:")]
                for w in what:
                    if w.startswith("KNOWN:"):
                        self.known.setdefault(w[6:], (byid[sid], i))
                if hard:
                    self.fails.append((byid[sid], i, hard, traces[sid]))
        self.traces += len(sids)
        self.events += sum(len(traces[s]) for s in sids)
        for s in sids:
            k = "%s:%s" % (byid[s].get("kind"), byid[s].get("cfg", {}).get("type", ""))
            self.kinds[k] = self.kinds.get(k, 0) + 1
            for r in traces[s]:
                self.opcount[r.get("op", "?")] = self.opcount.get(r.get("op", "?"), 0) + 1
        if sids and len(self.samples) < 4:
            s = byid[sids[len(sids) // 2]]
            last = traces[s["id"]][-1]
            self.samples.append({"scenario": {"id": s["id"], "kind": s.get("kind"), "cfg": s.get("cfg"),
                                              "ops": s.get("ops", [])[:12]},
                                 "operations": len(s.get("ops", [])),
                                 "last_record": {k: v for k, v in last.items() if k not in ("log",)}})

    def _tlc_cached(self, module, env, **kw):
        """Models do not depend on the code; VMCCACHE (a folder, unset in
        registered runs) keeps their results for experiments."""
        d = os.environ.get("VMCCACHE")
        if not d:
            return self.tlc(module, env, **kw)
        h = hashlib.sha256()
        for f in sorted(os.listdir(os.path.join(VERIF, "spec"))):
            h.update(open(os.path.join(VERIF, "spec", f), "rb").read())
        for k in sorted(env):
            v = str(env[k])
            h.update((k + "=").encode() + (open(v, "rb").read() if os.path.isfile(v) else v.encode()))
        h.update(module.encode())
        fn = os.path.join(d, h.hexdigest())
        if os.path.exists(fn):
            return 0, open(fn).read()
        rc, text = self.tlc(module, env, **kw)
        if rc == 0:
            open(fn + ".%d" % os.getpid(), "w").write(text)
            os.rename(fn + ".%d" % os.getpid(), fn)
        return rc, text

    def model_check(self, module, env, name, workers=CORES, mem="6g", timeout=800, scripts=True, maxscripts=None, cfg=None):
        """Exhaustive run of a model; returns the printed scripts (sampled)."""
        rc, text = self._tlc_cached(module, dict({"PROP": self.prop}, **env), cfg=cfg, workers=workers, mem=mem, timeout=timeout)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        if rc != 0 or "No error has been found" not in text or not m:
            tail = "\n".join(l for l in text.splitlines() if "SCRIPT" not in l)[-4000:]
            raise CheckError("the model %s does not satisfy its properties or TLC failed:\n%s" % (name, tail))
        gen, dist = int(m[-1][0]), int(m[-1][1])
        self.states += dist
        self.transitions += gen
        out = []
        if scripts:
            for line in text.splitlines():
                if "SCRIPT " in line:
                    out.append(line[line.index("SCRIPT ") + 7:].rstrip().rstrip('"').replace('\\"', '"'))
            out = sorted(set(out))
        self.mc.append({"model": name, "generated": gen, "distinct": dist, "scripts": len(out)})
        self.log("model %s: %d transitions, %d distinct states, %d scripts" % (name, gen, dist, len(out)))
        return out

    # ------------------------------------------------------------- report
    def known_list(self):
        res = {}
        fn = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(fn):
            for line in open(fn):
                m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line)
                if m and m.group(1) == self.prop:
                    res[m.group(2)] = m.group(3)
        return res

    def finish(self, level="model_checking", assumptions=()):
        listed = self.known_list()
        viol = list(self.fails)
        for k, (sc, i) in sorted(self.known.items()):
            if k in listed:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, listed[k]))
            else:
                viol.append((sc, i, [k], []))
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "events_validated": self.events,
            "models": self.mc, "scenario_kinds": self.kinds, "operations": self.opcount,
            "samples": self.samples[:4], "notes": self.notes, "not_judged": self.lacks,
            "rule": "states/transitions: distinct and generated states of the TLC runs (exhaustive models and one state per recorded operation); traces: scenarios executed on the code built from the working tree and accepted or rejected step by step by the TLA+ trace specification",
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1), "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log("largest process: %d MB" % (resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss // 1024)) if os.environ.get("VDEBUG") else None
        if not viol:
            if self.lacks:
                self.log("not judged: %s" % json.dumps(self.lacks))
                if sum(self.lacks.values()) > .2 * self.traces:
                    raise CheckError("too much that the stand-ins of the libraries cannot do")
            self.log("property %s held on %d executions (%d operations)" % (self.prop, self.traces, self.events))
            return 0
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        viol.sort(key=lambda v: v[1])
        for n, (sc, i, what, tr) in enumerate(viol[:3]):
            fn = os.path.join(rd, "%s-%d.json" % (self.prop, n))
            cut = dict(sc)
            if isinstance(cut.get("ops"), list):
                cut["ops"] = cut["ops"][:max(1, i)]
            with open(fn, "w") as f:
                json.dump({"property": self.prop, "failed": what, "at_event": i, "scenario": cut,
                           "trace": tr[max(0, i - 1):i + 1]}, f, indent=1)
            print("  %s at event %d of scenario %s (%s)" % (what, i, sc["id"], sc.get("cfg", {}).get("type", "")))
            pan = [r["panic"] for r in tr[i:i + 1] if "panic" in r]
            if pan:
                print("   ", pan[0])
        print("VIOLATION property=%s replay=%s" % (self.prop, os.path.join(rd, "%s-0.json" % self.prop)))
        if len(viol) > 1:
            print("  (%d scenarios violate it)" % len(viol))
        return 1

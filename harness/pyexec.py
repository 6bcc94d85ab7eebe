#!/usr/bin/env python3
"""pyexec.py SCRIPT TRACE: runs operations on the Python parts of the
repository (VREPO) and records what they answer.  It decides nothing."""
import contextlib, gzip, importlib, importlib.util, io, json, os, pickle, queue, random, shutil, signal, sys, tempfile, time, types

sys.dont_write_bytecode = True
REPO = os.environ["VREPO"]
NULL = -1000000000


class Timeout(BaseException):
    pass


class Lacks(BaseException):
    """A stand-in does not know what the library it stands for can do."""


LIBS = ("fastavro", "tqdm", "requests", "urllib3", "yaspin", "pandas", "numpy", "plotly", "colorama", "pyspark", "findspark", "matplotlib")


def lacking(x):
    if type(x).__name__ == "Lacks":
        return str(x)
    if isinstance(x, ImportError):
        top = (x.name or "").split(".")[0]
        if top in LIBS or isinstance(x, ModuleNotFoundError) and top not in ("", "DataManager", "probe") and importlib.util.find_spec(top) is None:
            return str(x)
    return ""


def only(name, known):
    """What a module which stands for a library does with a name it has not."""
    def get(k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Lacks("%s.%s" % (name, k))
    return get


def ring(*_):
    raise Timeout()


signal.signal(signal.SIGALRM, ring)


def load(name, path):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


_dm = None


def datamanager():
    """The package, with stand-ins for the libraries which are not installed."""
    global _dm
    if _dm is None:
        class Missing(types.ModuleType):
            def __getattr__(self, k):
                if k.startswith("__"):
                    raise AttributeError(k)
                return lambda *a, **kw: (a[0] if a else None)
        for n in ("tqdm", "requests", "urllib3", "yaspin"):
            if n not in sys.modules and importlib.util.find_spec(n) is None:
                sys.modules[n] = Missing(n)
        avro()
        # the package itself would also load what works with Spark
        pkg = types.ModuleType("DataManager")
        pkg.__path__ = [os.path.join(REPO, "DataManager")]
        sys.modules["DataManager"] = pkg
        _dm = importlib.import_module("DataManager.collector.api")
        _dm.J = importlib.import_module("DataManager.collector.datafile.json")
        _dm.A = importlib.import_module("DataManager.collector.datafile.avro")
    return _dm


# ------------------------------------------------------------- data files
WORDS = ["store", "mc", "data", "è", "日本", "a\nb", "\\", "\"", "}\n{", "\t", "x" * 40]
BAD = ["{", "{'a': 1}", 7, None, ["{\"a\": }"], [3]]


def record(k, shape):
    r = random.Random(k * 7919 + len(shape))
    if shape == "scalar":
        return k
    if shape == "list":
        return [k, r.random(), r.choice(WORDS)]
    d = {"id": k}
    if shape == "nested":
        d.update(a={"b": [r.choice(WORDS), {"c": None, "d": r.random() * 10 ** r.randint(-9, 9)}], "e": True}, n=r.randint(-2 ** 60, 2 ** 60))
    elif shape == "large":
        d["text"] = "".join(r.choice(WORDS) for _ in range(r.randint(100, 400)))
    elif shape == "mixed":
        if k % 3 == 0:
            d["text"] = "".join(r.choice(WORDS) for _ in range(r.randint(1, 300)))
        elif k % 3 == 1:
            d["v"] = [k] * r.randint(0, 5)
    return d


class DataFiles:
    def __init__(self, cfg, tmp):
        self.fmt, self.shape, self.api = cfg["fmt"], cfg["shape"], cfg["api"]
        self.dm = datamanager()
        self.path = os.path.join(tmp, "f." + self.fmt)
        self.bytes = b""
        self.reader = None
        self.by = {json.dumps(record(k, self.shape), sort_keys=True): k for k in range(1, cfg["n"] + 1)}

    def number(self, obj):
        return self.by.get(json.dumps(obj, sort_keys=True), -99)

    def open(self):
        if self.reader is not None:
            return self.reader
        if self.fmt == "bytes":
            src = io.BytesIO(self.bytes)
            if self.api == "wrap":
                self.reader = self.dm.DataFile(src)
            elif self.api == "writer":
                w = self.dm.J.JSONDataFileWriter(descriptor=src, append=True)
                self.keep = w
                self.reader = self.dm.DataFile(w)
            else:
                self.reader = self.dm.J.JSONDataFileReader(descriptor=src)
        elif self.api == "reader":
            self.reader = self.dm.J.JSONDataFileReader(self.path)
        else:
            self.reader = self.dm.DataFile(self.path)
        return self.reader

    def write(self, o):
        self.reader = None
        rec = [record(k, self.shape) for k in o["l"]]
        how = o["how"]
        if how == "strs":
            items = [json.dumps(r, indent=o.get("indent")) for r in rec]
        elif how == "mixed":
            items = [json.dumps(r) if j % 2 or not isinstance(r, dict) else r for j, r in enumerate(rec)]
        elif how == "bad":
            items = None
        else:
            items = [r if isinstance(r, dict) else json.dumps(r) for r in rec]
        more = o["mode"] == "a"
        if self.fmt == "bytes":
            buf = io.BytesIO(self.bytes if more else b"")
            arg = dict(descriptor=buf, append=more)
        else:
            arg = dict(filename=self.path, append=more)
        first = None
        if o.get("ctor") and items:
            first, items = items[:1], items[1:]
            arg["data"] = first
        with self.dm.J.JSONDataFileWriter(**arg) as w:
            try:
                if how == "bad":
                    w.append(BAD[o["bad"]])
                elif how == "one":
                    for x in items:
                        w.append(x)
                elif how == "gen":
                    w.append(x for x in items)
                else:
                    w.append(list(items))
            finally:
                if self.fmt == "bytes":
                    self.bytes = buf.getvalue()

    def do(self, o):
        op = o["op"]
        if op == "write":
            return dict(exc=self.exc(lambda: self.write(o)))
        r = self.open()
        if op == "fresh":
            self.reader = None
            return {}
        if op == "len":
            return dict(v=len(r))
        if op == "raw":
            raw = r.raw_data
            return dict(got=[self.number(json.loads(x)) for x in raw.decode("utf-8").split("\n") if x])
        if op == "cp":
            raw = r.raw_data.split(b"\n")
            r.add_checkpoint(o["at"], sum(len(x) + 1 for x in raw[:o["at"]]))
            return {}
        if op == "pickle":
            self.reader = pickle.loads(pickle.dumps(r))
            return {}
        if op == "chunks":
            got = list(r.get_chunks(o["k"]))
            return dict(got=[self.number(x) for c in got for x in c], lens=[len(c) for c in got])
        got = []
        def read():
            if op == "list":
                got.extend(self.number(x) for x in list(r))
            elif op == "mid":
                it = iter(r)
                for _ in range(o["k"]):
                    got.append(self.number(next(it)))
                len(r)
                while len(got) < 5000:
                    try:
                        got.append(self.number(next(it)))
                    except StopIteration:
                        break
            elif op == "index":
                got.append(self.number(r[o["at"]]))
            elif op == "slice":
                a, b, s = [None if o[x] == NULL else o[x] for x in ("a", "b", "s")]
                got.extend(self.number(x) for x in r[slice(a, b, s)])
            else:
                it = iter(r) if op == "iter" else r.start_from(o["at"]) if op == "from" else r.get_data()
                for x in it:
                    if o["k"] >= 0 and len(got) == o["k"]:
                        break
                    got.append(self.number(x))
                    if len(got) > 5000:
                        break
        exc = self.exc(read)
        return dict(got=got, exc=exc)

    @staticmethod
    def exc(f):
        try:
            f()
            return ""
        except Exception as e:
            return type(e).__name__


OWN = {"type": "record", "name": "row", "namespace": "t", "fields": [
    {"name": "id", "type": "long"}, {"name": "v", "type": "double"}, {"name": "u", "type": ["null", "string", "int"]},
    {"name": "l", "type": {"type": "array", "items": {"type": "record", "name": "part", "fields": [{"name": "a", "type": "int"}, {"name": "b", "type": "string"}]}}},
    {"name": "p", "type": ["null", "part"]}, {"name": "e", "type": {"type": "enum", "name": "kind", "symbols": ["A", "B", "C"]}}, {"name": "d", "type": "int", "default": 7}]}
BADROWS = [lambda r: json.dumps(r), lambda r: 7, lambda r: None, lambda r: [3], lambda r: [r, 3], lambda r: (r,), lambda r: [r, "x"]]


def layout(rng, depth=0):
    """The types of the fields of a record: at least two kinds of scalar
    (a dictionary of one kind is a map)."""
    kinds = rng.sample(["int", "float", "text", "bool", "bytes", "none"], 6)
    if rng.random() < .4:
        kinds = rng.choice([["int", "bool"], ["bool", "int"], ["int", "float"], ["float", "int"], ["text", "bytes"], ["int", "none"]])
    l = kinds[:2] if rng.random() < .5 else [kinds[0], kinds[1], kinds[0]]
    for _ in range(rng.randint(0, 4) if depth else rng.randint(1, 6)):
        t = rng.choice(["scalar", "list", "map", "record"])
        k = rng.choice(["int", "float", "text", "bool", "bytes"])
        l.append(k if t == "scalar" else (t, k) if t != "record" else layout(rng, depth + 1) if depth < 3 else rng.choice(kinds))
    if rng.random() < .5:
        rng.shuffle(l)
    return list(zip(rng.sample("abcdefghij", len(l)), l))


def fill(r, t):
    if isinstance(t, list):
        return {n: fill(r, x) for n, x in t}
    if isinstance(t, tuple):
        some = range(r.randint(1, 4))
        return [fill(r, t[1]) for _ in some] if t[0] == "list" else {w: fill(r, t[1]) for w in r.sample(WORDS, len(some))}
    return {"int": lambda: r.choice([0, 1, -1, r.randint(-2 ** 31, 2 ** 31), r.randint(-2 ** 63, 2 ** 63 - 1)]), "float": lambda: r.choice([0., 1., r.random(), r.random() * 10 ** r.randint(-9, 9), r.randint(-4000, 4000) / 4]), "text": lambda: r.choice(WORDS + [""]),
            "bool": lambda: r.random() < .5, "bytes": lambda: r.choice(WORDS).encode(), "none": lambda: None}[t]()


def row(k, shape):
    """What an Avro schema can be deduced for."""
    r = random.Random(k * 7919 + len(shape))
    word, quarter = lambda: r.choice(WORDS), lambda: r.choice([r.random(), r.randint(-4000, 4000) / 4])
    if shape == "single":
        return {"id": k}
    if shape == "ints":
        return dict({"id": k}, **{w: r.randint(-2 ** 31, 2 ** 31 - 1) for w in r.sample(WORDS, r.randint(0, 4))})
    if shape == "texts":
        return dict({"id": str(k)}, **{w: word() for w in r.sample(WORDS, r.randint(0, 4))})
    if shape == "flat":
        return {"id": k, "t": word(), "f": quarter(), "b": r.random() < .5, "n": None, "y": word().encode()}
    if shape == "large":
        return {"id": k, "t": "".join(word() for _ in range(r.randint(100, 400)))}
    if shape == "own":
        return {"id": k * 2 ** 40 * r.choice([1, -1]), "v": r.random() * 10 ** r.randint(-9, 9), "u": r.choice([None, word(), r.randint(-99, 99)]),
                "l": [{"a": r.randint(0, 9), "b": word()} for _ in range(r.randint(0, 3))], "p": r.choice([None, {"a": k, "b": ""}]), "e": r.choice("ABC"), "d": r.choice([7, 8])}
    return dict(fill(r, layout(random.Random(shape))), id=k, it=word())


class AvroFiles(DataFiles):
    def __init__(self, cfg, tmp):
        super().__init__(cfg, tmp)
        self.path = os.path.join(tmp, "f.avro")
        self.codec = cfg["codec"]
        self.by = {self.text(row(k, self.shape)): k for k in range(1, cfg["n"] + 1)}
        self.writer, self.it, self.keep = None, None, []

    @staticmethod
    def text(x):
        return json.dumps(x, sort_keys=True, default=lambda y: ["bytes", bytes(y).hex()])

    def number(self, obj):
        return self.by.get(self.text(obj), -99)

    def kept(self, x):
        # a reader which goes away closes what it reads
        self.keep.append(x)
        return x

    def open(self):
        if self.reader is None:
            A, src = self.dm.A, self.path
            if self.fmt == "bytes":
                src = io.BytesIO(self.writer.raw_data if self.writer is not None else self.bytes)
            elif self.fmt == "file" and self.api != "writer":
                src = open(self.path, "rb")
            if self.api == "writer" and self.writer is not None:
                src = self.writer
            self.reader = self.kept(self.dm.DataFile(src) if self.api in ("wrap", "writer") else A.AvroDataFileReader(src))
        return self.reader

    def end(self):
        if self.writer is not None:
            if self.fmt == "bytes":
                self.bytes = self.writer.raw_data
            self.writer.__exit__(None, None, None)
            self.writer = None

    def write(self, o):
        self.reader = None
        rows = [row(k, self.shape) for k in o["l"]]
        if o["mode"] == "w":
            self.end()
            dst = self.path if self.fmt == "path" else io.BytesIO() if self.fmt == "bytes" else open(self.path, "w+b")
            kw = {} if not self.codec else dict(codec=self.codec)
            if self.shape == "own":
                kw["schema"] = json.loads(json.dumps(OWN))
            if o.get("ctor") and rows:
                first, rows = rows[0], rows[1:]
                kw["data"] = first if o["how"] == "one" else [first]
            self.writer = self.dm.A.AvroDataFileWriter(dst, **kw).__enter__()
        if o["how"] == "bad":
            self.writer.append(BADROWS[o["bad"]](row(1, self.shape)))
        elif o["how"] == "one":
            for x in rows:
                self.writer.append(x)
        else:
            self.writer.append(rows)
        if o.get("end"):
            self.end()

    def do(self, o):
        op = o["op"]
        if op == "raw":
            src = self.writer if o.get("w") and self.writer is not None else self.open()
            return dict(got=[self.number(x) for x in sys.modules["fastavro"].reader(io.BytesIO(src.raw_data))])
        if op == "start":
            def start():
                self.it = iter(self.open())
            return dict(exc=self.exc(start), got=[])
        if op == "next":
            got = []
            return dict(exc=self.exc(lambda: got.append(self.number(next(self.it)))), got=got)
        if op == "fresh":
            self.reader = None
            return {}
        return super().do(o)


# ------------------------------------------------------------- the cache
class PyCache:
    def __init__(self, cfg, tmp):
        m = load("pysim_cache", os.path.join(REPO, "SmartCache", "pySim", "cache.py"))
        self.u = cfg["u"]
        self.c = m.LRU(cfg["max"] / self.u) if not cfg.get("dflt") else m.LRU()
        self.names = {}

    def name(self, f):
        return "/store/data/%d.root" % f

    def obs(self):
        fig = {}
        for k in ("size", "hit", "miss", "written_data", "deleted_data", "read_data"):
            v = getattr(self.c, "_" + k, None)
            if isinstance(v, (int, float)):
                x = v * (1 if k in ("hit", "miss") else self.u)
                if x != int(x):
                    fig["odd"] = 1
                fig[k] = int(x)
        # the statistics of the files, where they are to be found
        per = []
        st = getattr(self.c, "_stats", None)
        if hasattr(st, "get_or_set"):
            for f, s in self.names.items():
                x = st.get_or_set(self.name(f), s / self.u)
                per.append(dict(f=f, hit=x.hit, miss=x.miss, tot=x.tot_requests, s=int(x.size * self.u)))
        return dict(q=sorted(f for f in self.names if self.c.check(self.name(f))), hr=round(self.c.hit_rate() * 10 ** 6), fig=fig, per=per)

    def do(self, o):
        if o["op"] == "get":
            self.names[o["f"]] = o["s"]
            self.c.get(self.name(o["f"]), o["s"] / self.u)
        return dict(obs=self.obs())

# ------------------------------------------------------------- data sets
# Stand-ins for the libraries the data set part needs: they keep what they
# are given and give it back.
class Spin:
    def __init__(self, *a, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __getattr__(self, k):
        # text, ok, fail, write, hide, ...
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kw: None


class Bar(Spin):
    """A progress bar: what it goes over."""
    def __init__(self, it=None, *a, **kw):
        self.it = kw.get("iterable", it)

    def __iter__(self):
        return iter(self.it)

    def __len__(self):
        return len(self.it)


class Whatever:
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return k


def avro():
    """The module which stands for fastavro."""
    if "fastavro" not in sys.modules:
        load("fastavro", os.path.join(os.path.dirname(os.path.abspath(__file__)), "miniavro.py"))
        sys.modules["fastavro"].__getattr__ = only("fastavro", None)
    return sys.modules["fastavro"]


def avro_write(fo, records):
    any_ = ["null", "boolean", "long", "double", "string", "bytes"]
    avro().writer(fo, {"type": "record", "name": "raw", "fields": [{"name": k, "type": any_} for k in records[0]] if records else []}, records, "snappy")


class Spark:
    parallel = 2
    seen = {}

    @property
    def defaultParallelism(self):
        return Spark.parallel

    @classmethod
    def getOrCreate(cls, conf=None):
        return cls()

    files = {}

    def binaryFiles(self, path):
        # paths of HDFS files come with a year of four digits
        return types.SimpleNamespace(collect=lambda: [(p, c) for p, c in sorted(Spark.files.items()) if p == path])

    def parallelize(self, items, *a):
        return types.SimpleNamespace(map=lambda f: types.SimpleNamespace(collect=lambda: [f(x) for x in list(items)]))

    def set(self, k, v):
        Spark.seen[k] = v

    def setMaster(self, v):
        Spark.seen["master"] = v

    def setAppName(self, v):
        Spark.seen["app_name"] = v


class Answered:
    def __init__(self, code, obj=None, content=b""):
        self.status_code, self.obj, self.content = code, obj, content
        self.text = json.dumps(obj)

    @property
    def ok(self):
        return self.status_code < 400

    def raise_for_status(self):
        if not self.ok:
            raise OSError("%d error" % self.status_code)

    def json(self):
        return self.obj

    @property
    def raw(self):
        return io.BytesIO(self.content)

    reason, headers, encoding, url = "", {}, "utf-8", ""

    def __bool__(self):
        return self.ok

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def __iter__(self):
        return self.iter_content(128)

    def iter_content(self, n=1):
        for j in range(0, len(self.content), n):
            yield self.content[j:j + n]


class Server:
    """A file system behind HttpFS, and an index of documents behind
    ElasticSearch, in memory.  fail: the number of the request that fails."""
    dirs, files, docs, puts, calls = set(), {}, {}, [], []
    fail, codes, bad, hdfs, es = 0, (201, 201), (500, 400), "http://hdfs:14000", "http://es:9200/idx/"

    @classmethod
    def reset(cls):
        cls.dirs, cls.files, cls.docs, cls.puts, cls.calls, cls.fail = {()}, {}, {}, [], [], 0

    @classmethod
    def come(cls, how, url, params, auth):
        cls.calls.append(dict(how=how, auth=[str(x) for x in auth] if auth and any(x is not None for x in auth) else [], user=(params or {}).get("user.name", ""), op=(params or {}).get("op", "")))
        if cls.fail and len(cls.calls) == cls.fail:
            return Answered(cls.bad[0 if url.startswith(cls.hdfs) else 1], dict(RemoteException="failed"))

    @classmethod
    def at(cls, url):
        p = url[len(cls.hdfs):]
        if not url.startswith(cls.hdfs) or not p.startswith("/webhdfs/v1/"):
            raise ValueError("no such address: " + url)
        return tuple(x for x in p[len("/webhdfs/v1/"):].split("/") if x)

    @classmethod
    def put(cls, url, params=None, data=None, headers=None, auth=None, verify=None, allow_redirects=None, **kw):
        bad = cls.come("put", url, params, auth)
        if bad is not None:
            return bad
        if url.startswith(cls.es):
            return cls.index(url[len(cls.es):], json.dumps(kw["json"]) if "json" in kw else data)
        p, op = cls.at(url), params["op"]
        if op == "MKDIRS":
            cls.dirs |= {p[:j] for j in range(len(p) + 1)}
            return Answered(200, dict(boolean=True))
        if op != "CREATE":
            return Answered(400, dict(RemoteException=op))
        if p in cls.dirs or p in cls.files and not params.get("overwrite"):
            return Answered(403, dict(RemoteException="FileAlreadyExistsException"))
        if not params.get("data"):
            return Answered(cls.codes[0], dict(Location=url))
        cls.files[p] = data if isinstance(data, bytes) else data.read()
        cls.dirs |= {p[:j] for j in range(len(p))}
        return Answered(cls.codes[1])

    @classmethod
    def get(cls, url, params=None, auth=None, verify=None, allow_redirects=None, stream=False, **kw):
        bad = cls.come("get", url, params, auth)
        if bad is not None:
            return bad
        p, op = cls.at(url), params["op"]
        if op == "LISTSTATUS" and p in cls.dirs:
            l = [dict(type="DIRECTORY", pathSuffix=x[-1]) for x in cls.dirs if x and x[:-1] == p] + [dict(type="FILE", pathSuffix=x[-1]) for x in cls.files if x[:-1] == p]
            return Answered(200, dict(FileStatuses=dict(FileStatus=sorted(l, key=lambda x: x["pathSuffix"]))))
        if op == "OPEN" and p in cls.files:
            return Answered(200, content=cls.files[p])
        return Answered(404, dict(RemoteException="FileNotFoundException"))

    @classmethod
    def delete(cls, url, params=None, auth=None, verify=None, allow_redirects=None, **kw):
        bad = cls.come("delete", url, params, auth)
        if bad is not None:
            return bad
        p = cls.at(url)
        below = lambda x: x[:len(p)] == p
        if p in cls.dirs and not params.get("recursive") and any(below(x) and x != p for x in list(cls.dirs) + list(cls.files)):
            return Answered(403, dict(RemoteException="PathIsNotEmptyDirectoryException"))
        was = p in cls.dirs or p in cls.files
        cls.dirs = {x for x in cls.dirs if not below(x)} | {()}
        cls.files = {x: c for x, c in cls.files.items() if not below(x)}
        return Answered(200, dict(boolean=was))

    @classmethod
    def post(cls, url, *a, **kw):
        if not url.startswith(cls.es):
            return Answered(405)
        return cls.put(url, *a, **kw)

    @classmethod
    def request(cls, method, url, *a, **kw):
        return getattr(cls, method.lower())(url, *a, **kw)

    @classmethod
    def index(cls, rest, data):
        data = data.decode() if isinstance(data, bytes) else data
        if rest != "_bulk":
            cls.docs[rest] = json.loads(data)
            cls.puts.append([cls.docs[rest]])
            return Answered(201, dict(result="created"))
        lines = data.split("\n")
        if lines[-1] != "" or len(lines) % 2 != 1:
            return Answered(400, dict(error="The bulk request must be terminated by a newline"))
        new = [(json.loads(a)["index"]["_id"], json.loads(b)) for a, b in zip(lines[:-1:2], lines[1:-1:2])]
        cls.docs.update(new)
        cls.puts.append([d for _, d in new])
        return Answered(200, dict(errors=False))


class Sched:
    """Schedules the processes of a stage, if on: what they do (put a result,
    end) happens at the calls of the stage, as the scenario says.  tokens: P1
    and E1 are steps of process 1; S, L, F are calls of the stage (a start, a
    look at the processes, one at the queue), which take the steps before
    them.  pick: at each call, the number of the step to do, or -1."""
    on, procs, tokens, pick, idle, last = False, [], [], [], 0, ""

    @classmethod
    def reset(cls, o):
        cls.on, cls.procs, cls.idle, cls.last = True, [], 0, ""
        cls.tokens, cls.pick = list(o.get("tokens", [])), list(o.get("pick", []))

    @classmethod
    def moves(cls):
        return [p for p in cls.procs if p.state < 2]

    @classmethod
    def step(cls, p):
        cls.idle = 0
        if p.state == 0:
            p.state, p.todo = 1, Collected.of(p)
        if p.todo:
            p.queue.items.append(p.todo.pop(0))
        else:
            p.state = 2

    @classmethod
    def call(cls, kind):
        cls.idle += 1
        if cls.tokens:
            again = kind == cls.last and kind != "S"
            cls.last = kind
            if kind == "J" or again:
                return cls.stuck()
            while cls.tokens and cls.tokens[0][0] in "PE":
                t = cls.tokens.pop(0)
                n = int(t[1:])
                if n <= len(cls.procs) and cls.procs[n - 1].state < 2:
                    p = cls.procs[n - 1]
                    cls.step(p)
                    while t[0] == "E" and p.state < 2:
                        cls.step(p)
            if cls.tokens and cls.tokens[0][0] == kind:
                cls.tokens.pop(0)
            return cls.stuck()
        if cls.pick:
            x, m = cls.pick.pop(0), cls.moves()
            if x >= 0 and m:
                cls.step(m[x % len(m)])
            return
        for p in cls.moves()[:1]:
            cls.step(p)

    @classmethod
    def stuck(cls):
        # the stage only waits: something has to happen
        if cls.idle > 200 and cls.moves():
            cls.step(cls.moves()[0])


class Collected(list):
    """What a process puts."""
    put = put_nowait = list.append

    def __bool__(self):
        return True

    @classmethod
    def of(cls, p):
        c = cls()
        sub = lambda x: c if x is p.queue else x
        try:
            p.target(*[sub(x) for x in p.args], **{k: sub(x) for k, x in p.kwargs.items()})
        except Exception:
            p.exitcode = 1
        return list(json.loads(json.dumps(list(c))))


class Proc:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, daemon=None):
        self.target, self.args, self.kwargs, self.daemon, self.state, self.todo, self.exitcode = target, args, kwargs, daemon, -1, [], None
        self.queue = next((x for x in list(args) + list(kwargs.values()) if isinstance(x, Line)), None)

    def start(self):
        Sched.call("S")
        self.state = 0
        Sched.procs.append(self)

    def join(self, timeout=None):
        Sched.call("J")
        while timeout is None and self.state < 2:
            Sched.step(self)

    def is_alive(self):
        Sched.call("L")
        return 0 <= self.state < 2


class Line:
    def __init__(self, *a):
        self.items = []

    def empty(self):
        Sched.call("F")
        return not self.items

    def qsize(self):
        Sched.call("F")
        return len(self.items)

    def get(self, block=True, timeout=None):
        while not self.items and block and timeout is None and Sched.moves():
            Sched.step(Sched.moves()[0])
        if not self.items:
            raise queue.Empty()
        return self.items.pop(0)

    def get_nowait(self):
        Sched.call("F")
        return self.get(False)

    def put(self, x, *a):
        self.items.append(x)


class Session:
    """A session of requests: what it was given goes with every request."""
    def __init__(self):
        self.auth, self.headers, self.params, self.verify = None, {}, {}, None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def mount(self, *a):
        pass

    def request(self, method, url, *a, params=None, auth=None, headers=None, **kw):
        return Server.request(method, url, *a, params=dict(self.params, **(params or {})), auth=auth if auth is not None else self.auth, headers=dict(self.headers, **(headers or {})), **kw)

    def __getattr__(self, k):
        if k not in ("get", "put", "post", "delete"):
            raise Lacks("requests.Session.%s" % k) if not k.startswith("__") else AttributeError(k)
        return lambda url, data=None, **kw: self.request(k, url, **(dict(kw, data=data) if data is not None else kw))


_ds = None


def datasets():
    global _ds
    if _ds is None:
        def mod(name, **kw):
            m = types.ModuleType(name)
            m.__dict__.update(kw)
            m.__dict__.setdefault("__getattr__", only(name, kw))
            sys.modules[name] = m
            return m
        ident = lambda *a, **kw: (a[0] if a else None)
        import multiprocessing as mp
        def either(real, stand):
            return lambda *a, **kw: stand(*a, **kw) if Sched.on else real(*a, **kw)
        mp.Process, mp.Queue, mp.SimpleQueue, mp.JoinableQueue = either(mp.Process, Proc), either(mp.Queue, Line), either(mp.SimpleQueue, Line), either(mp.JoinableQueue, Line)
        avro()
        mod("tqdm", tqdm=Bar)
        mod("yaspin", yaspin=Spin)
        mod("yaspin.spinners", Spinners=Whatever())
        mod("findspark", init=ident)
        mod("urllib3", disable_warnings=ident)
        errors = dict(RequestException=OSError, HTTPError=OSError, ConnectionError=ConnectionError, Timeout=TimeoutError)
        mod("requests", Session=Session, session=Session, Response=Answered, exceptions=mod("requests.exceptions", **errors), codes=types.SimpleNamespace(ok=200, created=201, temporary_redirect=307, bad_request=400, not_found=404),
            **dict(errors, **{m: getattr(Server, m) for m in ("put", "get", "delete", "post", "request")}))
        mod("pyspark", SparkConf=Spark, SparkContext=Spark)
        mod("pandas")
        mod("numpy", array=ident, asarray=ident, mean=lambda l: sum(l) / len(l), sum=sum, argmax=lambda l: list(l).index(max(l)), zeros=lambda shape, **kw: [0.] * shape[0])
        mod("matplotlib", pyplot=mod("matplotlib.pyplot"))
        dm = datamanager()
        imp = lambda n: importlib.import_module("DataManager.collector." + n)
        _ds = types.SimpleNamespace(dm=dm, U=imp("dataset.utils"), X=imp("datafeatures.extractor"), S=imp("dataset.stage"),
                                    G=imp("dataset.generator"), A=importlib.import_module("DataManager.agent.api"), R=imp("dataset.resource"), D=imp("dataset.reader"))
    return _ds


def codes(s):
    return [ord(c) for c in s]


def text(l):
    return "".join(chr(c) for c in l)


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


class Answer:
    """What an operation answers, or the exception it ends with."""
    def __init__(self, f):
        self.exc, self.v = "", None
        try:
            self.v = quiet(f)
        except Exception as e:
            if lacking(e):
                raise Lacks(lacking(e))
            self.exc = type(e).__name__


class Tables:
    def __init__(self, cfg, tmp):
        self.ds = datasets()
        self.t, self.k = cfg["tables"], cfg["keys"]
        self.st = self.ds.U.SupportTable()

    def dump(self, d, table=None):
        rows = d.items() if table is None else [(table, d)]
        return [dict(t=self.t.index(t) + 1, k=self.k.index(k) + 1, v=codes(v), i=i) for t, tab in rows for k, vals in tab.items() for v, i in vals.items()]

    def do(self, o):
        op, st = o["op"], self.st
        t = self.t[o["t"] - 1] if "t" in o else ""
        k = self.k[o["k"] - 1] if "k" in o else ""
        v = text(o["v"]) if "v" in o else ""
        if op == "insert":
            st.insert(t, k, v, **({} if o["unk"] else dict(with_unknown=False)))
        elif op == "gen":
            st.gen_indexes()
            return dict(d=self.dump(st.to_dict()))
        elif op == "dict":
            return dict(d=self.dump(st.to_dict()))
        elif op == "attr":
            a = Answer(lambda: getattr(st, t))
            return dict(d=self.dump(a.v, t) if a.exc == "" else [], exc=a.exc)
        elif op in ("get", "close"):
            a = Answer(lambda: (st.get_value if op == "get" else st.get_close_value)(t, k, v))
            return dict(ans=a.v if a.exc == "" else -1, exc=a.exc)
        elif op == "conv":
            data = {self.k[x["k"] - 1]: text(x["v"]) for x in o["data"]}
            a = Answer(lambda: st.close_conversion(t, data, normalized=o["norm"], one_hot=o["hot"]))
            return dict(ans=[round(x * 10 ** 4) for x in a.v] if a.exc == "" else [], exc=a.exc)
        elif op == "len":
            a = Answer(lambda: st.get_len(t, k))
            return dict(ans=a.v if a.exc == "" else -1, exc=a.exc)
        elif op == "keys":
            a = Answer(lambda: [self.k.index(x) + 1 for x in st.get_sorted_keys(t)])
            return dict(ans=a.v if a.exc == "" else [], exc=a.exc)
        elif op == "tables":
            l = st.list
            return dict(ans=[self.t.index(x) + 1 for x in l], at=[self.t.index(st[j]) + 1 for j in range(len(l))])
        elif op == "reduce":
            a = Answer(lambda: st.reduce_categories(t, k, filter_=st.filters.simple_split, lvls=o["lvls"]))
            return dict(exc=a.exc)
        elif op == "pickle":
            self.st = pickle.loads(pickle.dumps(st))
        elif op == "rebuild":
            d = json.loads(json.dumps(st.to_dict()))
            self.st = self.ds.U.SupportTable(d) if o["how"] == "plain" else self.ds.U.ReadableDictAsAttribute(dict(other=1, support_tables=d)).support_tables
        return {}


class TrainSet:
    def __init__(self, cfg, tmp):
        self.ds = datasets()
        self.k = cfg["keys"]
        fn = os.path.join(tmp, "set.json" + cfg.get("ext", ".gz"))
        with self.ds.dm.J.JSONDataFileWriter(fn) as w:
            for j, r in enumerate(cfg["rows"]):
                w.append(dict(features={self.k[x["k"] - 1]: text(x["v"]) for x in r["f"]}, tot_wrap_cpu=float(r["cpu"]), tot_requests=r["req"],
                              id=str(j), **{"class": text(r["c"])}))
        self.r = quiet(lambda: self.ds.D.CMSDatasetTest0Reader(fn))

    def do(self, o):
        op, r = o["op"], self.r
        num = lambda rows: [[round(x * 10 ** 4) for x in row] for row in rows]
        if op == "gen":
            quiet(lambda: r.gen_support_table(o["lvls"]))
            d = r.support_table.to_dict()
            t = ["features", "classes"]
            return dict(d=[dict(t=t.index(n) + 1, k=self.k.index(k) + 1 if n == "features" else 1, v=codes(v), i=i)
                           for n, tab in d.items() for k, vals in tab.items() for v, i in vals.items()])
        if op == "train":
            kw = dict(k_fold=o["k"]) if o["k"] else {}
            if o["norm"]:
                kw.update(normalized=True, one_hot=False)
            if o["hot"]:
                kw["one_hot_labels"] = True
            ys = lambda l: [[int(x) for x in y] if isinstance(y, list) else y for y in l]
            a = Answer(lambda: [dict(x=num(x), y=ys(y), val=0 if v is None else 1, vx=[] if v is None else num(v[0]), vy=[] if v is None else ys(v[1])) for x, y, v in r.train_set(**kw)])
            return dict(folds=a.v if a.exc == "" else [], exc=a.exc)
        if op == "score":
            return dict(ans=round(r.score_avg * 1000))
        if op == "classes":
            return dict(ans=r.get_num_classes())
        return dict(ans=len(r))


RAW = ["FileName", "Type", "WrapCPU", "SiteName", "TaskId", "JobId", "StartedRunningTimeStamp", "SuccessFlag"]


def raw_record(x, ds):
    d = {k: "-" for k in ds.X.CMSDataPopularityRaw.__init__.__defaults__[1]}
    d.update(FileName=x["path"], Type=x["type"], WrapCPU=float(x["cpu"]), TaskId=x["n"], SiteName="T%d" % (x["n"] % 3))
    if x.get("more"):
        d["NotAFeature"] = "x"
    return d


class DataSet:
    """Popularity records, stages and pipelines."""
    def __init__(self, cfg, tmp):
        self.ds, self.tmp, self.ids, self.cfg = datasets(), tmp, {}, cfg
        self.confs = 0

    def id(self, x):
        return 0 if x is None else self.ids.setdefault(x, len(self.ids) + 1)

    def record(self, r):
        """A record as it is, without what identifies the request."""
        f = r["features"]
        return dict(f=[dict(k=k, v=str(f[k])) for k in sorted(f)], id=self.id(r.get("id")))

    def out(self, stage, records):
        res = []
        for r in records:
            r = json.loads(r) if isinstance(r, str) else r
            if stage == "raw":
                res.append(dict(n=r["features"]["TaskId"], name=str(r["id"]), valid=1 if r["valid"] else 0, nf=len(r["features"])))
            elif stage == "featured":
                res.append(dict(self.record(r), n=r["data"]["TaskId"], valid=1 if r["valid"] else 0))
            else:
                c = r["tot_wrap_cpu"]
                res.append(dict(self.record(r), cpu=int(c) if c == int(c) else -1, req=r["tot_requests"], cls=r["class"]))
        return res

    def stage(self, name, base=None):
        S = self.ds.S
        cls = dict(raw=S.CMSRawStage, featured=S.CMSFeaturedStage, test0=S.CMSRecordTest0Stage)[name]
        return cls(**({"batch_size": base} if base and name == "raw" else {}))

    def input(self, stage, l):
        """The records a stage takes, made by the classes of the stages before."""
        X = self.ds.X
        rows = [raw_record(x, self.ds) for x in l]
        if stage == "raw":
            return rows
        if stage == "featured":
            return [json.loads(json.dumps(X.CMSDataPopularityRaw(r).to_dict())) for r in rows if r["Type"] == "analysis"]
        res = []
        for r in rows:
            p = X.CMSDataPopularity(r)
            if p:
                res.append(json.loads(json.dumps(p.to_dict())))
        return res

    def do(self, o):
        op, X, S = o["op"], self.ds.X, self.ds.S
        if op == "pop":
            def make():
                r = X.CMSDataPopularity(raw_record(o["r"], self.ds))
                if o["pickle"]:
                    r = pickle.loads(pickle.dumps(r))
                return r
            a = Answer(make)
            if a.exc:
                return dict(exc=a.exc, valid=0, f=[], id=0, n=0)
            r = a.v
            return dict(exc="", valid=1 if r else 0, f=[dict(k=k, v=str(v)) for k, v in r.features], id=self.id(r.record_id) if r else 0, n=r.TaskId)
        if op == "raw":
            r = X.CMSDataPopularityRaw(raw_record(o["r"], self.ds))
            if o["how"] == "pickle":
                r = pickle.loads(pickle.dumps(r))
            elif o["how"] == "json":
                r = X.CMSDataPopularityRaw().loads(r.dumps())
            return dict(valid=1 if r else 0, nf=len(r.feature_list), name=r.to_dict()["id"], n=r.TaskId if r else 0)
        if op == "merge":
            made = []
            for x in o["l"]:
                p = X.CMSDataPopularity(raw_record(x, self.ds))
                m = X.CMSRecordTest0(p if o["how"] == "object" else json.loads(json.dumps(p.to_dict())))
                m.record_id
                if o["how"] == "load":
                    m = X.CMSRecordTest0().load(json.loads(m.dumps()))
                elif o["how"] == "pickle":
                    m = pickle.loads(pickle.dumps(m))
                made.append(m)
            while len(made) > 1:
                a = made.pop(o["at"] % len(made)) if o["at"] else made.pop(0)
                b = made.pop(0)
                if o["plus"] == "add":
                    a = a + b
                else:
                    a += b
                made.append(a)
            m = made[0]
            if o["cls"] != "UNKNOWN":
                m.set_class(o["cls"])
                if o["how"] == "load":
                    m = X.CMSRecordTest0().load(json.loads(m.dumps()))
                elif o["how"] == "pickle":
                    m = pickle.loads(pickle.dumps(m))
            if m.record_class != m.to_dict()["class"]:
                raise ValueError("two classes")
            return dict(r=self.out("test0", [m.to_dict()])[0], score=round(m.score * 100))
        if op == "stage":
            st = self.stage(o["stage"], o.get("batch"))
            batches = [self.input(o["stage"], l) for l in o["batches"]]
            if o["how"] == "process":
                a = Answer(lambda: [r for b in batches for r in st.process(b)])
            else:
                Spark.parallel = o["par"]
                def run():
                    kw = dict(use_spark=True) if o["how"] == "spark" else dict(num_process=o["par"])
                    res = st.task(st.pre_input(iter(batches)), **kw)
                    return list(st.pre_output(self.ds.dm.DataFile(res)))
                if o["how"] == "sched":
                    Sched.reset(o)
                a = Answer(run)
                Sched.on = False
            return dict(exc=a.exc, out=[] if a.exc else self.out(o["stage"], a.v))
        if op == "tasks":
            class Late(S.Stage):
                @staticmethod
                def process(batch, queue=None):
                    time.sleep(batch["ms"] / 1000)
                    queue.put(dict(n=batch["n"], text="x" * batch["big"]))
            st = Late("late")
            if o["tokens"] or o["pick"]:
                Sched.reset(o)
            a = Answer(lambda: [r["n"] for r in self.ds.dm.DataFile(st.task([dict(n=j + 1, ms=ms, big=o["big"]) for j, ms in enumerate(o["ms"])], num_process=o["par"]))])
            Sched.on = False
            return dict(exc=a.exc, out=a.v or [])
        if op == "batches":
            items = [dict(n=j) for j in range(1, o["n"] + 1)]
            if o["how"] == "pipeline":
                p = self.ds.G.Pipeline("x", [], batch_size=o["size"])
                a = Answer(lambda: [list(b) for b in p.gen_batches(iter(items), "s")])
            elif o["how"] == "raw":
                st = self.stage("raw", o["size"])
                a = Answer(lambda: [list(b) for b in st.pre_input(iter([items[:o["cut"]], items[o["cut"]:]]))])
            else:
                fn = os.path.join(self.tmp, "b.json.gz")
                with self.ds.dm.J.JSONDataFileWriter(fn) as w:
                    w.append(items)
                r = self.ds.R.CMSDatasetResourceManager(fn, batch_size=o["size"])
                a = Answer(lambda: [list(b) for b in r.get()])
            return dict(exc=a.exc, out=[] if a.exc else [[x["n"] for x in b] for b in a.v])
        if op == "window":
            def run():
                res = []
                for y, m, d in self.ds.U.gen_window_dates(o["y"], o["m"], o["d"], o["size"], **dict(**(dict(step=o["step"]) if o["step"] else {}), **(dict(next_window=True) if o["next"] else {}))):
                    res.append([y, m, d])
                    if len(res) > 2000:
                        break
                return res
            a = Answer(run)
            return dict(exc=a.exc, out=a.v or [])
        if op == "conf":
            def conf(l):
                c = {x["k"]: x["v"] for x in l if x["k"] in ("master", "app_name")}
                rest = {x["k"]: x["v"] for x in l if x["k"] not in c}
                return dict(c, config=rest) if rest else c
            st = S.Stage("x", spark_conf=conf(o["first"])) if o["first"] else S.Stage("x")
            if o["over"]:
                st.update_config(conf(o["then"]))
            else:
                self.ds.G.Pipeline("x", [st], spark_conf=conf(o["then"]))
            Spark.seen = {}
            st.spark_context
            return dict(conf=[dict(k=k, v=str(v)) for k, v in sorted(Spark.seen.items())])
        if op == "pipeline":
            self.confs += 1
            base, src = os.path.join(self.tmp, "p%d" % self.confs), o["source"]
            Server.reset()
            Spark.files = {}
            for day in o["days"]:
                parts = []
                for l in day["l"]:
                    f = io.BytesIO()
                    avro_write(f, [raw_record(x, self.ds) for x in l])
                    parts.append(f.getvalue())
                for j, c in enumerate(parts):
                    name = "part-m-%05d.avro" % j
                    if src == "local":
                        p = os.path.join(base, "year=%d" % day["y"], "month=%d" % day["m"], "day=%d" % day["d"])
                        os.makedirs(p, exist_ok=True)
                        with open(os.path.join(p, name), "wb") as f:
                            f.write(c)
                    elif src == "hdfs":
                        Spark.files["hdfs://h/avro/year=%4d/month=%d/day=%d/%s" % (day["y"], day["m"], day["d"], name)] = c
                    else:
                        p = ("data", "avro", "year=%d" % day["y"], "month=%d" % day["m"], "day=%d" % day["d"])
                        Server.files[p + (name,)] = c
                        Server.dirs |= {p[:j] for j in range(len(p) + 1)}
            conf = dict(local=dict(local=dict(folder=base)), hdfs=dict(hdfs=dict(hdfs_base_path="hdfs://h/avro")),
                        httpfs=dict(httpfs=dict(url=Server.hdfs, user="u", password="p", base_path="/data/avro/")))[src]
            r = self.ds.R.CMSResourceManager("%d %d %d" % tuple(o["start"]), o["size"], resource=conf)
            names = ["raw", "featured", "test0"][:o["stages"]]
            stages = [self.stage(n, o["batch"]) for n in names]
            Spark.parallel = o["par"]
            def run():
                p = self.ds.G.Pipeline("x", stages, source=r, batch_size=o["batch"])
                p.run(save_stage=o["save"], use_spark=o["spark"])
                p.save(os.path.join(base, "out"))
                again = list(self.ds.dm.DataFile(os.path.join(base, "out", "x.json.gz")))
                kept = []
                if o["save"]:
                    c = os.path.join(base, "cache")
                    there = sorted(os.listdir(c)) if src == "local" else sorted(x[-1] for x in Server.files if x[0] == "cache")
                    get = lambda f: os.path.join(c, f) if src == "local" else io.BytesIO(Server.files["cache", f])
                    kept = [dict(stage=n, out=self.out(n, list(self.ds.dm.DataFile(get(f)))))
                            for n, s in zip(names, stages) for f in there if f.endswith("stage-%s.json.gz" % s.name)]
                return dict(out=self.out(names[-1], list(p.result)), saved=self.out(names[-1], again), len=p.stats["result"]["len"], kept=kept)
            Server.calls = []
            a = Answer(run)
            return dict(a.v or dict(out=[], saved=[], len=0, kept=[]), exc=a.exc, who=sorted({tuple(c["auth"]) for c in Server.calls}))
        return {}


class Clients:
    """The clients of the agent, and its command line, on the server."""
    def __init__(self, cfg, tmp):
        self.ds, self.tmp, self.k = datasets(), tmp, 0
        Server.reset()
        Server.codes, Server.bad, self.big = tuple(cfg["codes"]), tuple(cfg["bad"]), cfg["big"]
        self.auth = tuple(cfg["auth"])
        u = dict(hadoop_user=cfg["user"]) if cfg["user"] else {}
        self.fs = self.ds.A.HTTPFS(Server.hdfs, *self.auth, **u) if self.auth else self.ds.A.HTTPFS(Server.hdfs, **u)
        self.es = self.ds.A.ElasticSearchHttp(Server.es if cfg["slash"] else Server.es[:-1], ":".join(self.auth))
        self.ids = {}

    @staticmethod
    def bytes(c):
        return (b"%d|" % c) * (c % 7 * 40 + 1)

    def content(self, b):
        c = int(b.split(b"|")[0]) if b[:1].isdigit() else -1
        return c if c >= 0 and self.bytes(c) == b else -1

    def doc(self, k):
        more = dict(a="text " * self.big) if self.big else dict(name="d%d" % k)
        return dict(more, v=[k, k + .5], text=WORDS[k % len(WORDS)], z="." * self.big)

    def number(self, d):
        k = d["v"][0] if isinstance(d, dict) and d.get("v") else -1
        return k if k >= 0 and d == self.doc(k) else -1

    def state(self):
        return dict(files=[dict(p=list(p), c=self.content(c)) for p, c in sorted(Server.files.items())], dirs=[list(p) for p in sorted(Server.dirs)],
                    docs=sorted([dict(id=self.ids.setdefault(i, len(self.ids) + 1), d=self.number(d)) for i, d in Server.docs.items()], key=lambda x: x["id"]),
                    puts=[[self.number(d) for d in l] for l in Server.puts], calls=list(Server.calls))

    def cli(self, argv):
        m = importlib.import_module("DataManager.agent.cli")
        out, keep, code = io.StringIO(), sys.argv, 0
        sys.argv = ["agent"] + argv
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                m.cli_main()
        except SystemExit as e:
            code = 1 if e.code else 0
        finally:
            sys.argv = keep
        return code, out.getvalue()

    def source(self, o):
        fn = os.path.join(self.tmp, "s.json.gz")
        with self.ds.dm.J.JSONDataFileWriter(fn) as w:
            w.append([self.doc(k) for k in o["l"]])
        return fn

    def do(self, o):
        op = o["op"]
        Server.calls, Server.puts, Server.fail = [], [], o.get("fail", 0)
        path = "/" + "/".join(o.get("p", []))
        ans, exc, got = 0, "", []
        if op in ("put", "get"):
            def run():
                if op == "get":
                    ix = str(o["at"]) if o["at"] != NULL else "[%s]" % ":".join("" if o[x] == NULL else str(o[x]) for x in "abs")
                    code, out = self.cli(["get", self.source(o), ix])
                    v = __import__("ast").literal_eval(out.strip().split("\n")[-1])
                    return code, [self.number(d) for d in (v if isinstance(v, list) else [v])]
                argv = ["put", self.source(o), Server.es] + (["--bulk", str(o["bulk"])] if o["bulk"] else []) + (["--start-from-index", str(o["at"])] if o["at"] else [])
                return self.cli(argv + (["--auth", ":".join(self.auth)] if self.auth else []))[0], []
            a = Answer(run)
            exc = a.exc
            if not exc:
                ans, got = a.v
            return dict(self.state(), exc=exc, ans=ans, got=got)
        if op == "mkdir":
            f = lambda: 1 if self.fs.mkdirs(path) is True else 0
        elif op == "create":
            def f():
                if o["how"] == "file":
                    fn = os.path.join(self.tmp, "up")
                    with open(fn, "wb") as h:
                        h.write(self.bytes(o["c"]))
                    src = fn
                else:
                    src = io.BytesIO(self.bytes(o["c"])) if o["how"] == "stream" else "/no/such/file"
                return 1 if self.fs.create(path, src, **(dict(overwrite=True) if o["over"] else {})) is True else 0
        elif op == "open":
            f = lambda: self.content(self.fs.open(path, **(dict(chunk_size=o["chunk"]) if o["chunk"] else {})).read())
        elif op == "delete":
            f = lambda: 1 if self.fs.delete(path, **({} if o["rec"] else dict(recursive=False))) else 0
        elif op == "list":
            f = lambda: [dict(t=t, n=n, p=[x for x in p.split("/") if x]) for t, n, p in self.fs.liststatus(path, **(dict(print_list=True) if o["print"] else {}))]
        else:
            f = lambda: 1 if self.es.put(self.doc(o["l"][0]) if o["one"] else [self.doc(k) for k in o["l"]]).status_code in (200, 201) else 0
        a = Answer(f)
        if not a.exc:
            if op == "list":
                got = a.v
            else:
                ans = a.v
        return dict(self.state(), exc=a.exc, ans=ans, got=got)


# ---------------------------------------------------------------- results
_pr = None
LOGCOLS = ["tick", "action or event", "cache size", "cache capacity", "filename", "size", "num req", "delta t"]
BIG = 1 << 20


def probe():
    global _pr
    if _pr is None:
        class Missing(types.ModuleType):
            def __getattr__(self, k):
                if k.startswith("__"):
                    raise AttributeError(k)
                return lambda *a, **kw: (a[0] if a else None)
        class Colours:
            def __getattr__(self, k):
                return ""
        pd = load("pandas", os.path.join(os.path.dirname(os.path.abspath(__file__)), "minipd.py"))
        sys.modules["numpy"] = pd.numpy()
        for n in ("tqdm", "plotly", "plotly.express", "plotly.graph_objects", "plotly.subplots", "colorama"):
            sys.modules[n] = Missing(n)
        sys.modules["tqdm"].tqdm = Bar
        sys.modules["plotly"].express = sys.modules["plotly.express"]
        sys.modules["colorama"].Fore = sys.modules["colorama"].Style = sys.modules["colorama"].Back = Colours()
        sys.path.insert(0, os.path.join(REPO, "Probe"))
        _pr = types.SimpleNamespace(pd=pd, D=importlib.import_module("probe.results.data"), U=importlib.import_module("probe.results.utils"))
    return _pr


def whole(x, scale=1):
    """x * scale as an integer (x is a multiple of 1 / scale, up to rounding)."""
    if x is None or x != x or abs(x) == float("inf"):
        return NULL
    v = x * scale
    return int(round(v)) if abs(v - round(v)) < 1e-3 * max(1, scale // 1000) and abs(v) < 2 ** 30 else NULL - 1


class Probe:
    """Folders with the results of simulations, and what is read back."""
    def __init__(self, cfg, tmp):
        self.p, self.tmp, self.cfg = probe(), tmp, cfg
        self.path, self.res = {}, None
        for r, x in enumerate(cfg["results"], 1):
            d = os.path.join(tmp, "base", *([cfg["folders"][x["fold"] - 1]] + [c["name"] for c in x["comps"]]))
            os.makedirs(d)
            self.path[os.path.join(cfg["folders"][x["fold"] - 1], *([c["name"] for c in x["comps"]] + ["simulation_results.csv"]))] = r
            cols = [c for c in x["cols"]]
            with open(os.path.join(d, "simulation_results.csv"), "w") as f:
                f.write(",".join(cols) + "\n")
                for row in x["rows"]:
                    f.write(",".join(self.cell(c, row) for c in cols) + "\n")
            if x["haslog"]:
                with __import__("gzip").open(os.path.join(d, "simulationLogFile.csv.gz"), "wt") as f:
                    f.write(",".join(LOGCOLS) + "\n")
                    for w in x["log"]:
                        f.write("%d,%s,%.2f,%.2f,%d,%.2f,%d,%d\n" % (w["t"], w["e"], w["cs"] / 100, w["cc"] / 100, w["f"], w["s"] / 100, w["nr"], w["dt"]))

    DATA = {"cache size": "c", "read on hit data": "h", "read on miss data": "m", "read data": "r", "written data": "w", "deleted data": "d",
            "size redirected": "x", "avg free space": "a", "std dev free space": "s"}
    PLAIN = {"num req": "n", "num miss after delete": "k", "bandwidth usage": "b", "CPU efficiency": "e", "hit rate": "g"}

    def cell(self, c, row):
        if c == "date":
            return "%04d-%02d-%02d 00:00:00 +0000 UTC" % (row["date"] // 10000, row["date"] // 100 % 100, row["date"] % 100)
        if c in self.DATA:
            return "%f" % (row[self.DATA[c]] * BIG)
        return "%d" % row[self.PLAIN[c]] if c == "num req" else "%.2f" % row[self.PLAIN[c]] if c in self.PLAIN else "1"

    def number(self, name):
        """The result a path or a name belongs to."""
        m = [x for x in name.replace("/", " ").split() if x[:1] == "r" and x[-1:] == "x" and x[1:-1].isdigit()]
        return int(m[0][1:-1]) if len(m) == 1 else -1

    def rows(self, df):
        return [dict(date=int(d.strftime("%Y%m%d")), n=int(n)) for d, n in zip(df["date"].to_list(), df["num req"].to_list())]

    def one(self, x):
        if isinstance(x, tuple):
            return dict(dels=[int(v) for v in x[0]], skips=[int(v) for v in x[1]])
        return dict(t=int(x.tick), e=x.event, cs=whole(x.on_delete_cache_size, 100), cc=whole(x.on_delete_cache_occupancy, 100),
                    nd=int(x.num_deleted_files), sz=whole(x.total_size_deleted_files, 100), nm=int(x.total_num_req_after_delete))

    def files(self, l):
        by = {self.path.get(f, -1): f for f in self.res.files}
        return [by[r] for r in l]

    def do(self, o):
        op = o["op"]
        D = self.p.D
        if op == "open":
            def run():
                self.res = D.aggregate_results([os.path.join(self.tmp, "base", self.cfg["folders"][k - 1]) + ("/" if o["slash"] else "") for k in o["fold"]])
                return dict(files=[self.path.get(f, -1) for f in self.res.files], comps=list(self.res.components), n=len(self.res))
        elif op == "df":
            def run():
                d = self.res.get_df(self.files([o["r"]])[0], o["all"], o["any"])
                return dict(there=0 if d is None else 1, rows=[] if d is None else self.rows(d))
        elif op == "log":
            def run():
                d = self.res.get_log(self.files([o["r"]])[0], o["all"], o["any"])
                return dict(there=0 if d is None else 1, rows=[] if d is None else [dict(t=int(w[1]), e=w[2], f=int(w[5])) for w in d.itertuples()])
        elif op == "report":
            def run():
                if o["all"]:
                    src = self.res.get_all()
                else:
                    src = [(f, None, self.res.get_log(f, [], [])) for f in self.files(o["rs"])]
                got = D.parse_simulation_report(src, self.cfg["folders"][0] + "/" if o["prefix"] else "", **dict(dict(generator=True) if o["gen"] else {}, **(dict(target=o["target"]) if o["target"] != "AFTERDELETE" else {})))
                if o["gen"]:
                    l = []
                    for name, x in got:
                        if not l or l[-1][0] != name:
                            l.append((name, []))
                        l[-1][1].append(x)
                else:
                    l = [(name, got[name]) for name in got]
                return dict(out=[dict(r=self.number(name), name=name, l=[self.one(x) for x in v]) for name, v in l])
        elif op == "table":
            def run():
                src = [(f, self.res.get_df(f, [], [])) for f in self.files(o["rs"])]
                kw = dict(dict(top_n=o["top"]) if o["top"] else {}, **dict(dict(extended=True) if o["ext"] else {}, **(dict(sort_by_roh_first=True) if o["roh"] else {})))
                t, names = D.make_table(src, self.cfg["folders"][0] + "/" if o["prefix"] else "", **kw)
                cols = [c for c in t.columns if c != "file"]
                return dict(cols=cols, src=[self.path.get(f, -1) for f in names], file=[self.number(f) for f in t["file"].to_list()], names=t["file"].to_list(),
                            v=[list(v) for v in zip(*[[whole(x, 1000000) for x in t[c].to_list()] for c in cols])])
        elif op == "metrics":
            def run():
                by = dict(self.res.get_all_df())
                t = D.get_all_metric_values([(f, by[f]) for f in self.files(o["rs"])])
                cols = list(t.columns)
                return dict(cols=cols, v=[list(v) for v in zip(*[[whole(x, 1000000) for x in t[c].to_list()] for c in cols])])
        a = Answer(run)
        return dict(exc=a.exc, ans=a.v if a.v is not None else 0)


# --------------------------------------- data sets of the simulator
CELL = {"int": lambda v: v, "float": lambda v: v / 4, "bool": bool, "word": lambda v: "w%02d/x y" % v, "num": str}
TYPE = {"int": int, "float": float, "bool": bool, "word": str, "num": str}


_sd = None


def simdata():
    global _sd
    if _sd is None:
        here = os.path.dirname(os.path.abspath(__file__))
        datasets()
        np = load("numpy", os.path.join(here, "mininp.py"))
        pd = load("pandas", os.path.join(here, "minipd.py"))
        def read(src, compression=None, **kw):
            if isinstance(src, str):
                src = gzip.open(src) if compression == "gzip" or src.endswith((".gz", ".gzip")) else open(src, "rb")
            return pd.DataFrame(json.loads(src.read().decode()))
        pd.read_feather = pd.read_pickle = read
        pd.DataFrame.to_numpy = lambda self, dtype=None, **kw: np.array([list(r) for r in zip(*self._c.values())], dtype)
        pd.DataFrame.values = property(lambda self: self.to_numpy())
        pd.Series.to_numpy = lambda self, dtype=None, **kw: np.array(list(self._v), dtype)
        pd.Series.values = property(lambda self: self.to_numpy())
        _sd = types.SimpleNamespace(np=np, R=load("DataManager.collector.dataset.simreader", os.path.join(REPO, "DataManager", "collector", "dataset", "reader.py")))
    return _sd


class SimData:
    """Tables of requests, the maps of their columns and the training data."""
    def __init__(self, cfg, tmp):
        self.sd, self.tmp, self.cols = simdata(), tmp, cfg["cols"]
        name = os.path.join(tmp, "data.%s.%s" % (cfg["file"], cfg["ext"]))
        with gzip.open(name, "wb") as f:
            f.write(json.dumps({self.name(c): [CELL[self.kind(c)](v) for v in x["v"]] for c, x in enumerate(self.cols, 1)}).encode())
        self.r = self.sd.R.SimulatorDatasetReader(name)

    def name(self, c):
        return "col%d" % c

    def kind(self, c):
        return self.cols[c - 1]["kind"]

    def code(self, c, x):
        """The number that stands for the key x (or its text) of column c."""
        k = self.kind(c)
        try:
            if k == "word":
                return int(x[1:3]) if CELL[k](int(x[1:3])) == x else NULL
            if k == "bool":
                return {"True": 1, "False": 0}[str(x)]
            v = float(x) * (4 if k == "float" else 1)
            return int(v) if v == int(v) and abs(v) < 2 ** 30 else NULL
        except (ValueError, KeyError, TypeError, IndexError):
            return NULL

    def maps(self):
        self.r.store_converter_map("m")
        with gzip.open(os.path.join(self.tmp, "m.json.gz")) as f:
            got = json.load(f)
        res = []
        for c in range(1, len(self.cols) + 1):
            m = got.pop(self.name(c), None)
            if m is not None:
                v = dict(m["values"])
                most = v.pop("max", -1)
                res.append(dict(c=c, feature=self.code_of_name(m["feature"]), type=str(m["type"]), keys=[self.code(c, k) for k in m["keys"]], unk=1 if m["unknown_values"] else 0,
                                buckets=1 if m["buckets"] else 0, open=1 if m["bucket_open_right"] else 0, vals=[dict(k=self.code(c, k), n=n) for k, n in v.items()], max=most))
        return dict(maps=res, other=len(got))

    def code_of_name(self, n):
        return int(n[3:]) if n[:3] == "col" and n[3:].isdigit() else -1

    def data(self, r):
        d, l = r.data
        np = self.sd.np
        num = lambda x: whole(x, 4)
        d, l = np.array(d), np.array(l)
        rows = lambda a: [[num(x) for x in np.array(y).flatten().tolist()] if isinstance(y, list) else [num(y)] for y in a.tolist()]
        return dict(shape=list(d.shape), rows=rows(d), lshape=list(l.shape), labels=rows(l))

    def do(self, o):
        op, r = o["op"], self.r
        if op == "map":
            c0 = o["cols"][0]
            t = str if o.get("text") else TYPE[self.kind(c0)]
            kw = dict(columns=[self.name(c) for c in o["cols"]], map_type=t)
            if o["unk"] or o.get("say"):
                kw["unknown_values"] = bool(o["unk"])
            if o["sort"]:
                kw["sort_keys"] = True
                if self.kind(c0) == "num" or o.get("text"):
                    kw["sort_type"] = int if self.kind(c0) in ("num", "int") else None
            if o["buckets"]:
                kw["buckets"] = [CELL[self.kind(c0)](b) for b in o["buckets"]] + (["..."] if o["open"] else [])
            a = Answer(lambda: r.make_converter_map(**kw))
            return dict(exc=a.exc, obs=self.maps())
        if op == "modify":
            a = Answer(lambda: r.modify_column(self.name(o["c"]), lambda s: s + CELL[self.kind(o["c"])](o["add"])))
            return dict(exc=a.exc)
        if op == "data":
            kw = dict(data_columns=[self.name(c) for c in o["cols"]])
            if o["label"]:
                kw["label_column"] = self.name(o["label"])
            if o["cnn"]:
                kw["for_cnn"] = True
            def run():
                r.make_data_and_labels(**kw)
                return self.data(r)
        elif op == "again":
            def run():
                r.save_data_and_labels(*([] if not o["named"] else ["out"]))
                n = self.sd.R.SimulatorDatasetReader()
                n.load_data_and_labels(os.path.join(self.tmp, "out.npz" if o["named"] else "dataset.converted.npz"))
                if o["named"]:
                    n.save_data_and_labels("copy")
                    n = self.sd.R.SimulatorDatasetReader().load_data_and_labels(os.path.join(self.tmp, "copy.npz"))
                return self.data(n)
        a = Answer(run)
        return dict(exc=a.exc, ans=a.v if a.v is not None else dict(shape=[], rows=[], lshape=[], labels=[]))


def main():
    out = open(sys.argv[2], "w")
    def emit(r):
        out.write(json.dumps(r) + "\n")
        out.flush()
    for line in open(sys.argv[1]):
        s = json.loads(line)
        tmp = tempfile.mkdtemp(prefix="vpy-")
        try:
            e = dict(op="init", cfg=s["cfg"], sid=s["id"], i=0)
            t = None
            for i, o in enumerate([None] + s["ops"]):
                if o is not None:
                    e = dict(o, sid=s["id"], i=i)
                signal.alarm(20)
                try:
                    if o is None:
                        t = {"datafile": DataFiles, "avrofile": AvroFiles, "pycache": PyCache, "table": Tables, "trainset": TrainSet, "dataset": DataSet, "clients": Clients, "probe": Probe, "simdata": SimData}[s["kind"]](s["cfg"], tmp)
                        if s["kind"] == "pycache":
                            e["obs"] = t.obs()
                    else:
                        e.update(t.do(o))
                except Timeout:
                    e["panic"] = "TIMEOUT"
                except BaseException as x:
                    if lacking(x):
                        e["lacks"] = lacking(x)
                    else:
                        e["panic"] = "%s: %s" % (type(x).__name__, x)
                finally:
                    signal.alarm(0)
                emit(e)
                if e.get("panic") == "TIMEOUT":
                    shutil.rmtree(tmp, ignore_errors=True)
                    os._exit(71)
                if "panic" in e or "lacks" in e:
                    break
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()

"""A stand-in for fastavro (1.0), which is not installed: schemas, and data
files of the Avro specification, as far as the repository uses them."""
import binascii, io, json, os, struct, zlib

PRIMITIVE = ("null", "boolean", "int", "long", "float", "double", "bytes", "string")
KEEP = ("type", "name", "namespace", "fields", "items", "values", "symbols", "size", "default", "doc", "aliases", "order", "logicalType", "__fastavro_parsed")


class SchemaParseException(Exception):
    pass


class UnknownType(SchemaParseException):
    pass


def full(name, space):
    return name if "." in name or not space else space + "." + name


def parse_schema(schema, expand=False, _write_hint=True, _force=False, **kw):
    if isinstance(schema, dict) and schema.get("__fastavro_parsed"):
        return schema
    names = {}
    out = parse(schema, "", names)
    if isinstance(out, dict):
        out["__fastavro_parsed"] = True
    return out


def parse(s, space, names):
    if isinstance(s, list):
        return [parse(x, space, names) for x in s]
    if not isinstance(s, dict):
        if s in PRIMITIVE:
            return s
        if not isinstance(s, str) or full(s, space) not in names:
            raise UnknownType(s)
        return full(s, space)
    t = s["type"]
    out = {k: v for k, v in s.items() if k not in ("type", "name", "namespace", "fields", "items", "values", "symbols", "size")}
    out["type"] = t
    if t == "array":
        out["items"] = parse(s["items"], space, names)
    elif t == "map":
        out["values"] = parse(s["values"], space, names)
    elif t in ("record", "error", "enum", "fixed"):
        name = full(s["name"], s.get("namespace", space))
        if name in names:
            raise SchemaParseException("redefined named type: " + name)
        names[name] = out
        out["name"] = name
        if t == "enum":
            out["symbols"] = list(s["symbols"])
        elif t == "fixed":
            out["size"] = s["size"]
        else:
            inner = name.rpartition(".")[0]
            out["fields"] = [dict({k: v for k, v in f.items() if k != "type"}, type=parse(f["type"], inner, names)) for f in s["fields"]]
    elif isinstance(t, (dict, list)):
        out["type"] = parse(t, space, names)
    elif t not in PRIMITIVE:
        if full(t, space) not in names:
            raise UnknownType(t)
        out["type"] = full(t, space)
    return out


def known(s, names):
    """The named types of a parsed schema."""
    if isinstance(s, list):
        for x in s:
            known(x, names)
    elif isinstance(s, dict):
        if "name" in s and s["type"] in ("record", "error", "enum", "fixed"):
            names[s["name"]] = s
        for k in ("items", "values", "type"):
            if isinstance(s.get(k), (dict, list)):
                known(s[k], names)
        for f in s.get("fields", []):
            known(f["type"], names)
    return names


def kind(s, names):
    """(type, schema with what belongs to it)"""
    while True:
        if isinstance(s, list):
            return "union", s
        if isinstance(s, str):
            if s in names:
                s = names[s]
                continue
            return s, s
        if isinstance(s["type"], (dict, list)) or s["type"] in names:
            s = s["type"]
            continue
        return s["type"], s


def put_long(o, n):
    n = (n << 1) ^ (n >> 63)
    while n & ~0x7F:
        o.write(bytes([(n & 0x7F) | 0x80]))
        n >>= 7
    o.write(bytes([n]))


def get_long(i):
    b = i.read(1)
    if not b:
        raise EOFError
    n, shift = b[0] & 0x7F, 7
    while b[0] & 0x80:
        b = i.read(1)
        n |= (b[0] & 0x7F) << shift
        shift += 7
    return (n >> 1) ^ -(n & 1)


def fits(s, v, names):
    t, s = kind(s, names)
    if t == "null":
        return v is None
    if t == "boolean":
        return isinstance(v, bool)
    if t in ("int", "long"):
        b = 31 if t == "int" else 63
        return isinstance(v, int) and not isinstance(v, bool) and -2 ** b <= v < 2 ** b
    if t in ("float", "double"):
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if t == "bytes":
        return isinstance(v, (bytes, bytearray))
    if t == "string":
        return isinstance(v, str)
    if t == "array":
        return isinstance(v, (list, tuple)) and all(fits(s["items"], x, names) for x in v)
    if t == "map":
        return isinstance(v, dict) and all(isinstance(k, str) and fits(s["values"], x, names) for k, x in v.items())
    if t == "enum":
        return v in s["symbols"]
    if t == "fixed":
        return isinstance(v, bytes) and len(v) == s["size"]
    if t == "union":
        return any(fits(x, v, names) for x in s)
    return isinstance(v, dict) and all(fits(f["type"], v.get(f["name"], f.get("default")), names) for f in s["fields"])


def put(o, s, v, names):
    t, s = kind(s, names)
    if t == "null":
        return
    if t == "boolean":
        o.write(b"\1" if v else b"\0")
    elif t in ("int", "long"):
        v = int(v)
        # fastavro keeps 64 bits of either; others may not read such an int
        if not -2 ** 63 <= v < 2 ** 63:
            raise OverflowError("int too large to convert to C long")
        put_long(o, v)
    elif t == "float":
        o.write(struct.pack("<f", v))
    elif t == "double":
        o.write(struct.pack("<d", v))
    elif t in ("bytes", "string"):
        if t == "string":
            if not isinstance(v, str):
                raise TypeError("must be string")
            v = v.encode("utf-8")
        put_long(o, len(v))
        o.write(v)
    elif t == "array":
        if len(v):
            put_long(o, len(v))
            for x in v:
                put(o, s["items"], x, names)
        put_long(o, 0)
    elif t == "map":
        if len(v):
            put_long(o, len(v))
            for k, x in v.items():
                put(o, "string", k, names)
                put(o, s["values"], x, names)
        put_long(o, 0)
    elif t == "enum":
        put_long(o, s["symbols"].index(v))
    elif t == "fixed":
        if len(v) != s["size"]:
            raise ValueError("size")
        o.write(v)
    elif t == "union":
        for j, x in enumerate(s):
            if fits(x, v, names):
                put_long(o, j)
                return put(o, x, v, names)
        raise ValueError("%r (type %s) do not match %r" % (v, type(v), s))
    else:
        for f in s["fields"]:
            x = v.get(f["name"], f.get("default"))
            if x is None and f["name"] not in v and "default" not in f and not fits(f["type"], None, names):
                raise ValueError("no value and no default for " + f["name"])
            put(o, f["type"], x, names)


def get(i, s, names):
    t, s = kind(s, names)
    if t == "null":
        return None
    if t == "boolean":
        return i.read(1) == b"\1"
    if t in ("int", "long"):
        return get_long(i)
    if t == "float":
        return struct.unpack("<f", i.read(4))[0]
    if t == "double":
        return struct.unpack("<d", i.read(8))[0]
    if t in ("bytes", "string"):
        v = i.read(get_long(i))
        return v.decode("utf-8") if t == "string" else v
    if t in ("array", "map"):
        l, d = [], {}
        n = get_long(i)
        while n != 0:
            if n < 0:
                n = -n
                get_long(i)
            for _ in range(n):
                if t == "array":
                    l.append(get(i, s["items"], names))
                else:
                    k = get(i, "string", names)
                    d[k] = get(i, s["values"], names)
            n = get_long(i)
        return l if t == "array" else d
    if t == "enum":
        return s["symbols"][get_long(i)]
    if t == "fixed":
        return i.read(s["size"])
    if t == "union":
        return get(i, s[get_long(i)], names)
    return {f["name"]: get(i, f["type"], names) for f in s["fields"]}


META = {"type": "map", "values": "bytes"}
MAGIC = b"Obj\x01"


def size_of(n):
    out = b""
    while n & ~0x7F:
        out += bytes([(n & 0x7F) | 0x80])
        n >>= 7
    return out + bytes([n])


def squeeze(codec, data):
    if codec == "null":
        return data
    if codec == "deflate":
        return zlib.compress(data)[2:-1]
    if codec == "snappy":
        out = size_of(len(data))
        for k in range(0, len(data), 60):
            piece = data[k:k + 60]
            out += bytes([(len(piece) - 1) << 2]) + piece
        return out + struct.pack(">I", binascii.crc32(data) & 0xFFFFFFFF)
    raise ValueError("unrecognized codec: %r" % codec)


def widen(codec, data):
    if codec == "null":
        return data
    if codec == "deflate":
        return zlib.decompressobj(-15).decompress(data)
    if codec == "snappy":
        i = io.BytesIO(data[:-4])
        while i.read(1)[0] & 0x80:
            pass
        out = b""
        while True:
            b = i.read(1)
            if not b:
                return out
            out += i.read((b[0] >> 2) + 1)
    raise ValueError("unrecognized codec: %r" % codec)


class reader:
    def __init__(self, fo, reader_schema=None, return_record_name=False):
        self.fo = fo
        try:
            if fo.read(4) != MAGIC:
                raise EOFError
            meta = get(fo, META, {})
            self.sync = fo.read(16)
        except (EOFError, IndexError):
            raise ValueError("cannot read header - is it an avro file?")
        self.metadata = {k: v.decode() for k, v in meta.items()}
        self.codec = self.metadata.get("avro.codec", "null")
        self.writer_schema = self.schema = parse_schema(json.loads(self.metadata["avro.schema"]))
        self.names = known(self.writer_schema, {})
        self.block = None
        self.records = self.go()

    def go(self):
        while True:
            try:
                n = get_long(self.fo)
            except EOFError:
                return
            size = get_long(self.fo)
            i = io.BytesIO(widen(self.codec, self.fo.read(size)))
            if self.fo.read(16) != self.sync:
                raise ValueError("expected sync marker not found")
            for _ in range(n):
                yield get(i, self.writer_schema, self.names)

    def __iter__(self):
        return self.records

    def __next__(self):
        return next(self.records)

    next = __next__


def writer(fo, schema, records, codec="null", sync_interval=16000, metadata=None, validator=None, sync_marker=None, codec_compression_level=None):
    if isinstance(records, dict):
        raise ValueError('"records" argument should be an iterable, not dict')
    schema = parse_schema(schema)
    names = known(schema, {})
    clean = lambda s: json.loads(json.dumps(s, sort_keys=True))
    squeeze(codec, b"")
    if fo.seekable() and fo.tell() != 0:
        if not fo.readable():
            raise ValueError("When appending to an avro file you must use the 'a+' mode, not just 'a'")
        fo.seek(0)
        old = reader(fo)
        if clean(old.writer_schema) != clean(schema):
            raise ValueError("Provided schema %r does not match file writer_schema %r" % (schema, old.writer_schema))
        codec, sync = old.codec, old.sync
        fo.seek(0, 2)
    else:
        sync = sync_marker or os.urandom(16)
        meta = dict(metadata or {})
        meta["avro.codec"] = codec
        meta["avro.schema"] = json.dumps({k: v for k, v in schema.items() if k != "__fastavro_parsed"} if isinstance(schema, dict) else schema)
        fo.write(MAGIC)
        put(fo, META, {k: v.encode() for k, v in meta.items()}, {})
        fo.write(sync)
    buf, n = io.BytesIO(), 0
    def block():
        data = squeeze(codec, buf.getvalue())
        put_long(fo, n)
        put_long(fo, len(data))
        fo.write(data)
        fo.write(sync)
    for r in records:
        if validator and not fits(schema, r, names):
            raise ValueError("%r is not of the schema" % r)
        put(buf, schema, r, names)
        n += 1
        if buf.tell() >= sync_interval:
            block()
            buf, n = io.BytesIO(), 0
    if n:
        block()
    fo.flush()


def is_avro(f):
    if isinstance(f, str):
        with open(f, "rb") as fo:
            return fo.read(4) == MAGIC
    at = f.tell()
    try:
        return f.read(4) == MAGIC
    finally:
        f.seek(at)

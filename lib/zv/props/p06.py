"""P06: damaged stored data is reported or contained, never a crash."""
import copy
import json
import os
import resource
import struct

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv import spec
from zv.core import CppSub, Sub, check

TECHNIQUE = "structure-aware mutation fuzzing of every stored file (bytes, n5 headers, shard indices with recomputed checksums, JSON documents), reading it back under AddressSanitizer/UBSan and through Python; metamorphic oracles (read twice into differently prepared buffers, truncation raises or is exact, other chunks unaffected)"
RULE = ("files (C++, ASan+UBSan): a generated container (all formats, codecs, sharding, varlen chunks, attributes, a group) gets 1-2 of its files damaged: bytes (truncate, extend, flip, set, integers of 1-8 bytes with boundary values at any offset, erase, insert, garbage, zeros, another file's content), n5 header fields, shard index entries with a recomputed crc, "
        "JSON documents (nodes replaced by other types, huge, negative and fractional numbers, other codec and type names, removed and added keys, nesting up to 300000 levels, other documents); then everything is opened and read: attributes, keys, kinds, small regions anywhere in the claimed shape with 1-3 threads, whole chunks into exactly sized buffers, headers, raw chunks, unique values. Only exceptions derived from std::exception may leave, every successful read must define every element. "
        "chunk: one chunk or shard file is damaged: all others read exactly as before, a truncated file raises or reads exactly; a truncated raw chunk or shard raises. "
        "size: a chunk or shard is replaced by the well-formed one of a smaller or larger chunk (optionally under the right n5 header): a chunk with too few elements must raise. "
        "python: the same damages, read through z5py in a process with limited memory: arrays of the requested shape and type or an exception. Non-trivial: the stored bytes differ from the original.")
ASSUMPTIONS = ["an operator new that throws std::bad_alloc stands in for the one of AddressSanitizer, which would end the process",
               "memory is limited to 256 MB per allocation (C++) and 1 GB per process (Python), so that a claimed size is refused instead of being touched",
               "a well-formed larger chunk may be refused or truncated for codecs that support it"]


BYTE_OPS = ["trunc", "trunc", "trunc1", "empty", "extend", "flip", "set", "int", "int", "erase", "insert", "garbage", "zeros", "other", "fmt", "fmt", "fmt"]
JSON_OPS = ["node", "node", "node", "node", "length", "drop", "drop", "add", "doc", "deep", "bytes"]
EVIL = [0, 1, 2, 3, 7, 8, 64, 255, 256, 65535, 65536, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 16, 2 ** 64 - 2, 2 ** 64 - 1]
VALUES = [None, -1, 0, 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 10 ** 30, 1.5, 1e300, "", "gzip", "blosc", "raw", "zstd", "zlib", "bytes", "sharding_indexed", "transpose", "<f8", ">i2", "|u1", "uint8", "float64", "<U4", "|b1",
          "<c8", "complex64", [], {}, True, False, "NaN", "Infinity", "0x7fc00000", "abc", "9" * 40, "/", ".", "../..", "a\0b", [[]], [1, 2, 3], {"a": 1}, "start", "F", "big"]
DOCS = ["", "null", "[]", "{}", "1", '"a"', '{"zarr_format": 2}', '{"zarr_format": 3}', '{"zarr_format": 3, "node_type": "array"}', '{"zarr_format": 3, "node_type": "group"}', '{"n5": 3}', '{"n5": {}}', '{"a": NaN}', '{"a": "\\ud800"}', "{", "\xff"]


@st.composite
def damages(draw):
    d = dict(op=draw(st.sampled_from(BYTE_OPS)), at=draw(st.one_of(st.integers(0, 40), st.integers(0, 10 ** 6))), n=draw(st.integers(1, 30)), v=draw(st.one_of(st.sampled_from(EVIL), st.integers(0, 10 ** 6))),
             w=draw(st.sampled_from([1, 2, 4, 8])), be=draw(st.booleans()), k=draw(st.integers(0, 1000)))
    return d


@st.composite
def json_damages(draw):
    return dict(op=draw(st.sampled_from(JSON_OPS)), k=draw(st.integers(0, 1000)), v=draw(st.sampled_from(VALUES)), how=draw(st.sampled_from(["value", "value", "plus", "times", "wrap", "append", "shorten", "suffix"])), n=draw(st.integers(1, 1000)),
                b=draw(damages()), deep=draw(st.sampled_from([50, 900, 20000, 120000])))


@st.composite
def cases(draw):
    cfg = draw(M.configs(max_ndim=4, threads=(1,), maxsize={1: 30, 2: 12, 3: 6, 4: 4}))
    c = dict(cfg=cfg, d=draw(M.pattern()), varlen=draw(st.integers(0, 12)) if cfg["fmt"] == "n5" and draw(st.booleans()) else None, meta=draw(st.booleans()))
    c["dam"] = [dict(file=draw(st.integers(0, 1000)), d=draw(st.lists(json_damages() if c["meta"] else damages(), min_size=1, max_size=2))) for _ in range(draw(st.sampled_from([1, 1, 1, 2])))]
    c["look"] = [dict(w=draw(st.integers(0, 2)), s=[draw(st.integers(1, 9)) for _ in range(4)], k=draw(st.integers(0, 10 ** 6)), threads=draw(st.sampled_from([1, 1, 3]))) for _ in range(draw(st.integers(1, 3)))]
    return c


def put(b, at, v, w, be):
    x = (v & ((1 << 8 * w) - 1)).to_bytes(w, "big" if be else "little")
    for i, y in enumerate(x):
        if at + i < len(b):
            b[at + i] = y


def damage(b, d, cfg, others):
    b = bytearray(b)
    at = d["at"] % len(b) if b else 0
    op = d["op"]
    if op == "trunc":
        del b[at:]
    elif op == "trunc1":
        del b[-1:]
    elif op == "empty":
        b.clear()
    elif op == "extend":
        b += bytes([d["k"] % 256]) * d["n"]
    elif op == "flip" and b:
        b[at] ^= 1 << d["k"] % 8
    elif op == "set" and b:
        b[at] = d["k"] % 256
    elif op == "int":
        put(b, at, d["v"], d["w"], d["be"])
    elif op == "erase":
        del b[at:at + d["n"]]
    elif op == "insert":
        b[at:at] = np.random.default_rng(d["k"]).bytes(d["n"])
    elif op == "garbage":
        b = bytearray(np.random.default_rng(d["k"]).bytes(d["n"] * 5))
    elif op == "zeros":
        b[at:at + 64] = bytes(len(b[at:at + 64]))
    elif op == "other" and others:
        b = bytearray(others[d["k"] % len(others)])
    elif op == "fmt" and cfg["fmt"] == "n5":
        nd = len(cfg["shape"])
        f = d["k"] % 5
        if f == 0:
            put(b, 0, d["n"] % 4, 2, True)
        elif f == 1:
            put(b, 2, d["n"] % 9 if d["be"] else d["v"], 2, True)
        elif f == 2:
            put(b, 4 + 4 * (d["n"] % nd), d["v"], 4, True)
        else:
            put(b, 0, 1, 2, True)
            if f == 3:
                b[4 + 4 * nd:4 + 4 * nd] = struct.pack(">I", d["v"] & 0xFFFFFFFF)
            else:
                put(b, 4 + 4 * nd, d["v"], 4, True)
    elif op == "fmt" and cfg["fmt"] == "z3s":
        slots = int(np.prod([s // c for s, c in zip(cfg["shards"], M.chunks_of(cfg))]))
        base = len(b) - 16 * slots - 4
        if base >= 0:
            e = base + 8 * (d["k"] % (2 * slots))
            v = d["v"] if d["be"] else struct.unpack("<Q", b[e:e + 8])[0] + d["n"] - 15
            put(b, e, v, 8, False)
            put(b, len(b) - 4, spec.crc32c(bytes(b[base:-4])), 4, False)
    return bytes(b)


def walk(j, path=()):
    yield path
    if isinstance(j, dict):
        for k in sorted(j):
            yield from walk(j[k], path + (k,))
    elif isinstance(j, list):
        for i, x in enumerate(j):
            yield from walk(x, path + (i,))


def at_path(j, path):
    for k in path:
        j = j[k]
    return j


def replaced(j, path, v):
    if not path:
        return v
    j = copy.copy(j)
    j[path[0]] = replaced(j[path[0]], path[1:], v)
    return j


def evil_json(old, d):
    how, v = d["how"], d["v"]
    if how == "plus" and isinstance(old, int):
        return old + d["n"]
    if how == "times" and isinstance(old, int):
        return old * d["n"]
    if how == "wrap":
        return [old, old] if d["n"] % 2 else {"a": old}
    if how == "append" and isinstance(old, list):
        return old + [old[0] if old else 1]
    if how == "shorten" and isinstance(old, (list, str)):
        return old[:-1]
    if how == "suffix" and isinstance(old, str):
        return old + "x"
    return v


def damage_json(b, d, cfg, others):
    op = d["op"]
    if op == "bytes":
        return damage(b, d["b"], cfg, others)
    if op == "doc":
        return DOCS[d["k"] % len(DOCS)].encode("latin-1")
    if op == "deep":
        n = d["deep"]
        deep = b"[" * n + b"]" * n if d["k"] % 2 else b'{"a":' * n + b"1" + b"}" * n
        i = b.find(b"{")
        if i < 0 or d["k"] % 5 == 0:
            return deep
        return b[:i + 1] + (b'"attributes":' if d["k"] % 3 == 0 else b'"deep":') + deep + (b"," if b'"' in b[i:] else b"") + b[i + 1:]
    if len(b) > 20000:
        return b
    try:
        j = json.loads(b)
    except ValueError:
        return b
    paths = list(walk(j))
    if op == "length":
        # an extent, chunk or shard length: negative or close to the limits
        lens = [q for q in paths if q and isinstance(q[-1], int) and isinstance(at_path(j, q), int)]
        if not lens:
            return b
        return json.dumps(replaced(j, lens[d["k"] % len(lens)], [2 ** 64, 2 ** 63, 2 ** 62, 0][d["n"] % 4] - d["n"] % 23)).encode()
    p = paths[d["k"] % len(paths)]
    x = at_path(j, p)
    if op == "drop" and isinstance(x, dict) and x:
        x = dict(x)
        del x[sorted(x)[d["n"] % len(x)]]
        j = replaced(j, p, x)
    elif op == "add" and isinstance(x, dict):
        keys = ["dimensions", "blockSize", "shape", "chunks", "filters", "codecs", "storage_transformers", "chunk_key_encoding", "compressionType", "order", "configuration", "attributes", "dimension_separator", "must_understand", "name"]
        j = replaced(j, p, dict(x, **{keys[d["n"] % len(keys)]: d["v"]}))
    else:
        j = replaced(j, p, evil_json(x, d))
    return json.dumps(j).encode()


def is_json(p):
    n = os.path.basename(p)
    return n.endswith(".json") or n.startswith(".z")


def quiet(fn, *a):
    """The result, or the exception."""
    try:
        return fn(*a), None
    except (AssertionError, KeyboardInterrupt):
        raise
    except Exception as e:
        return None, e


def limit():
    with open("/proc/self/statm") as f:
        cur = int(f.read().split()[0]) * resource.getpagesize()
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (cur + (1 << 30), hard))
    return hard


def run(case, ctx):
    cfg = case["cfg"]
    path = ctx.path(M.ext_of(cfg["fmt"]))
    f, ds = M.create(path, cfg)
    a = M.make(case["d"], cfg["shape"], cfg["dtype"], M.fill_of(cfg))
    ds[...] = a
    var = None
    if case["varlen"] is not None:
        var = (0,) * len(cfg["shape"])
        ds.write_chunk(var, np.arange(case["varlen"] + 1).astype(cfg["dtype"]), True)
    f.create_group("g").attrs["q"] = {"a": [1, "x", None]}
    f.attrs["p"] = 2.5
    ds.attrs["k"] = {"b": [1, 2, {"c": "d"}]}
    snap = {k: v for k, v in M.snapshot(path).items() if isinstance(v, bytes)}
    names = sorted(k for k in snap if is_json(k) == case["meta"])
    if not names:
        return
    others = [snap[k] for k in sorted(snap)]
    now = dict(snap)
    for d in case["dam"]:
        n = names[d["file"] % len(names)]
        for x in d["d"]:
            now[n] = (damage_json if case["meta"] else damage)(now[n], x, cfg, others)
    changed = [n for n in snap if now[n] != snap[n]]
    for n in changed:
        with open(os.path.join(path, n), "wb") as fh:
            fh.write(now[n])
    ctx.nontrivial = bool(changed)
    ctx.label("fmt:" + cfg["fmt"])
    ctx.label("metadata" if case["meta"] else "data")
    ctx.label("codec:" + cfg["codec"])
    del f, ds
    hard = limit()
    try:
        look(case, ctx, path, cfg, a, snap, now, changed, var)
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def look(case, ctx, path, cfg, a, snap, now, changed, var):
    import z5py
    f, e = quiet(lambda: z5py.File(path, "r"))
    if f is None:
        ctx.label("file refused")
        return
    quiet(lambda: list(f.keys()))
    quiet(lambda: (f.is_zarr, f.is_root, len(f)))
    seen = []
    quiet(lambda: f.visititems(lambda n, o: seen.append(n)))
    for o in (lambda: f, lambda: f["g"], lambda: f["data"]):
        quiet(lambda: dict(o().attrs.items()))
        quiet(lambda: list(o().attrs))
        quiet(lambda: o().attrs["k"])
        quiet(lambda: "q" in o().attrs)
    quiet(lambda: "g" in f and "data" in f and "data/x" in f)
    ds, e = quiet(lambda: f["data"])
    ctx.label("opened", ds is not None)
    if ds is None:
        check(case["meta"], "the metadata is intact, but the dataset cannot be opened: %r", e)
        return
    if not isinstance(ds, z5py.Dataset):
        return
    for p in ("shape", "chunks", "shards", "ndim", "size", "dtype", "compression", "compression_options", "compression_opts", "is_zarr", "number_of_chunks", "chunks_per_dimension", "fillvalue", "attrs"):
        quiet(lambda: getattr(ds, p, None))
    shape, e = quiet(lambda: ds.shape)
    chunks, e2 = quiet(lambda: ds.chunks)
    if shape is None or chunks is None:
        return
    check(len(shape) == len(chunks), "shape %s, but chunks %s", shape, chunks)
    if not case["meta"]:
        check(tuple(shape) == tuple(cfg["shape"]), "shape %s", shape)
    dt, e = quiet(lambda: np.dtype(ds.dtype))
    for l in case["look"]:
        ds.n_threads = l["threads"]
        r, left = [], 64
        for i, s in enumerate(shape):
            n = min(s, left, l["s"][i % 4])
            lo = 0 if l["w"] == 0 else s - n if l["w"] == 1 else l["k"] % (s - n + 1)
            r.append((lo, lo + n))
            left = max(1, left // max(n, 1))
        got, e = quiet(lambda: ds[tuple(slice(x, y) for x, y in r)])
        if e is None:
            check(isinstance(got, np.ndarray) and got.shape == tuple(y - x for x, y in r) and (dt is None or got.dtype == dt), "reading %s returned %s %s", r, getattr(got, "dtype", None), getattr(got, "shape", got))
            again, e = quiet(lambda: ds[tuple(slice(x, y) for x, y in r)])
            check(e is None and got.tobytes() == again.tobytes(), "reading %s twice differs (%r)", r, e)
        ctx.label("region:" + ("read" if e is None else "raised"))
        c = tuple(x // y if y else 0 for (x, _), y in zip(r, chunks))
        got, e = quiet(lambda: ds.read_chunk(c))
        check(e is not None or got is None or (isinstance(got, np.ndarray) and (dt is None or got.dtype == dt)), "read_chunk(%s) returned %r", c, got)
        quiet(lambda: ds.chunk_exists(c))
        quiet(lambda: ds._impl.getChunkShape(c, True))
    if case["meta"]:
        return
    # data files are damaged: the other chunks are intact; what was only truncated is exact or raises
    ds.n_threads = 1
    for c in np.ndindex(*M.grid(cfg)):
        key = chunk_key(cfg, c)
        s = M.chunk_slices(cfg, c)
        if key not in snap:
            continue
        intact = key not in changed
        if intact and c == var:
            continue
        prefix = snap[key].startswith(now[key])
        got, e = quiet(lambda: ds[s])
        if intact:
            check(e is None, "chunk %s is intact, but reading it raises %r", c, e)
        elif c == var:
            check(e is not None or not prefix, "varlen chunk %s", c)
            continue
        elif prefix and e is None:
            check(cfg["codec"] != "raw" and cfg["fmt"] != "z3s" and now[key], "chunk %s was truncated to %d of %d bytes, but was read", c, len(now[key]), len(snap[key]))
        if e is None and (intact or prefix):
            check(M.same(got, a[s]), "chunk %s (%s): %s", c, "intact" if intact else "truncated", M.diff(got, a[s]))
        if not intact and prefix:
            full, e = quiet(lambda: ds.read_chunk(c))
            if e is None:
                check(full is not None, "chunk %s was truncated and read_chunk says that it does not exist", c)
                inner = tuple(slice(0, x.stop - x.start) for x in s)
                check(M.same(full[inner], a[s]), "truncated chunk %s through read_chunk: %s", c, M.diff(full[inner], a[s]))


def chunk_key(cfg, cid):
    if cfg["fmt"] == "z3s":
        per = [s // c for s, c in zip(cfg["shards"], M.chunks_of(cfg))]
        cid = [i // p for i, p in zip(cid, per)]
    if cfg["fmt"] == "n5":
        key = "/".join(str(i) for i in reversed(cid))
    elif cfg["fmt"] == "z2":
        key = cfg["sep"].join(map(str, cid))
    elif cfg["enc"] == "default":
        key = "c/" + "/".join(map(str, cid))
    else:
        key = ".".join(map(str, cid))
    return "data/" + key


ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=256:detect_odr_violation=0"}
# (a number beyond the range of an integer, where one is expected, is converted by the json library)
DEFS = ["-fno-sanitize=float-cast-overflow"]
SUBS = [CppSub("files", "p06_corrupt", "files", quick=4000, env=ENV, defs=DEFS),
        CppSub("chunk", "p06_corrupt", "chunk", quick=2500, env=ENV, defs=DEFS),
        CppSub("size", "p06_corrupt", "size", quick=2500, env=ENV, defs=DEFS),
        Sub("python", cases, run, quick=2500, batch=100)]

"""P25: the S3 backend behaves as the file system backend does."""
import ctypes
import glob
import json
import os
import pickle

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv.build import VERIF
from zv.core import CppSub, Sub, check

EXT = "s3"

TECHNIQUE = "differential property testing: generated histories on the S3 backend (over an in-memory stand-in for the AWS SDK) and on the file system backend, with injected request failures"
RULE = ("history: 1-25 operations (containers, groups, datasets, attributes, regions, chunks, listings, removals) of n5, zarr v2, v3 and sharded v3 in rotating file modes, run on both backends; answers and stored objects compared after every operation; "
        "listing pages of 1, 2, 3, 7 or 1000 keys, prefixes with siblings that share them. Non-trivial: some chunk was stored. "
        "faults: requests fail (throttled, internal error, denied, network, truncated body, single key of a bulk delete), once or persistently; non-trivial: a failure was delivered. "
        "damaged: the same damage to a document or chunk of both containers, answers or refusals compared; all non-trivial. python: histories on z5py.S3File and z5py.File, results, exception types and stored objects compared; non-trivial: something was written. many: containers of up to 2300 objects listed and removed; non-trivial: more than one page or delete request.")
ASSUMPTIONS = ["the bucket is an in-memory stand-in for the AWS SDK (cpp/fakeaws): no AWS SDK, and no network, is installed here; what the real SDK does differently is not seen",
               "the file system backend is the reference; it is judged by the other properties"]


class Bucket:
    """The stand-in's store inside of the z5py that this process has loaded."""
    lib = None

    def __init__(self, page):
        if Bucket.lib is None:
            import z5py
            Bucket.lib = ctypes.CDLL(glob.glob(os.path.dirname(z5py.__file__) + "/_z5py*.so")[0])
            for n in ("fakeaws_count", "fakeaws_key"):
                getattr(Bucket.lib, n).restype = ctypes.c_size_t
            Bucket.lib.fakeaws_disarm.restype = ctypes.c_long
        self.lib.fakeaws_reset(b"b", ctypes.c_size_t(page))

    def put(self, key, data):
        self.lib.fakeaws_put(b"b", key.encode(), data, ctypes.c_size_t(len(data)))

    def objects(self):
        res = {}
        buf = ctypes.create_string_buffer(4096)
        for i in range(self.lib.fakeaws_count(b"b")):
            n = self.lib.fakeaws_key(b"b", ctypes.c_size_t(i), buf, ctypes.c_size_t(4096))
            data = ctypes.create_string_buffer(n + 1)
            self.lib.fakeaws_data(b"b", ctypes.c_size_t(i), data)
            res[buf.value.decode()] = data.raw[:n]
        return res


def norm(objs, root):
    """Documents by content, chunks by bytes."""
    res = {}
    for k, v in objs.items():
        if not k.startswith(root):
            continue
        doc = os.path.basename(k) in (".zarray", ".zgroup", ".zattrs", "zarr.json", "attributes.json")
        # an empty document and none are the same
        if doc and os.path.basename(k) == ".zattrs" and json.loads(v) == {}:
            continue
        res[k[len(root):]] = json.loads(v) if doc else v
    return res


NAMES = ["a", "ab", "data", "data2", "a.b", "0", "c", "a/b", "data/x/y", "ab/c"]
OPS = ["create_group", "require_group", "create_dataset", "create_dataset", "create_dataset", "require_dataset", "write", "write", "write", "write", "read", "read",
       "attr", "attr", "attr_del", "attrs", "keys", "visit", "del", "in", "chunk", "pickle", "reopen", "kind", "get"]


@st.composite
def py_case(draw):
    fmt = draw(st.sampled_from(["z2", "z3"]))
    ops = []
    for _ in range(draw(st.integers(2, 18))):
        op = dict(op=draw(st.sampled_from(OPS)), name=draw(st.sampled_from(NAMES)), k=draw(st.integers(0, 999)))
        if op["op"] in ("create_dataset", "require_dataset"):
            fmts = ["z2"] if fmt == "z2" else ["z3", "z3s"]
            op["cfg"] = draw(M.configs(fmts=fmts, max_ndim=3, maxsize={1: 20, 2: 8, 3: 5}))
            op["data"] = draw(st.booleans())
        if op["op"] in ("write", "read", "chunk"):
            op["cut"] = [draw(st.floats(0, 1)) for _ in range(6)]
            op["pat"] = draw(M.pattern())
            op["scalar"] = draw(st.integers(0, 5)) == 0
        if op["op"] == "attr":
            op["key"] = draw(st.sampled_from(["x", "y", "\u00e4"]))
            op["value"] = draw(M.json_values())
        if op["op"] == "attr_del":
            op["key"] = draw(st.sampled_from(["x", "y"]))
        if op["op"] == "reopen":
            op["mode"] = draw(st.sampled_from(["a", "a", "r", "r+", "w", "x", "w-"]))
        ops.append(op)
    return dict(fmt=fmt, root=draw(st.sampled_from(["p.zarr", "p", "q/p.zarr"])), page=draw(st.sampled_from([1000, 1, 2, 5])), ops=ops,
                sep=draw(st.sampled_from([None, None, "/"])) if fmt == "z2" else None)


def same_result(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return M.same(a, b)
    return type(a) is type(b) and repr(a) == repr(b)


def one(f, op, sets):
    """Apply an operation to a container of either backend."""
    o, name = op["op"], op["name"]
    cfg = op.get("cfg")
    if o == "create_group":
        f.create_group(name)
    elif o == "require_group":
        return f.require_group(name).name
    elif o in ("create_dataset", "require_dataset"):
        kw = M.create_kwargs(cfg)
        if o == "create_dataset" and op["data"]:
            kw["data"] = M.make(dict(p="rand", s=op["k"]), cfg["shape"], np.dtype(cfg["dtype"]))
        if o == "require_dataset":
            shape, dtype = kw.pop("shape"), kw.pop("dtype")
            ds = f.require_dataset(name, shape, dtype, **kw)
        else:
            ds = f.create_dataset(name, **kw)
        return ds.shape, ds.chunks, str(ds.dtype), ds.name
    elif o in ("write", "read", "chunk"):
        ds = f[name]
        if o == "chunk":
            cid = tuple(int(c * (n - 1)) for c, n in zip(op["cut"], ds.chunks_per_dimension))
            if op["scalar"]:
                box = tuple(min(c, s - i * c) for c, s, i in zip(ds.chunks, ds.shape, cid))
                ds.write_chunk(cid, M.make(op["pat"], box, ds.dtype))
            return ds.chunk_exists(cid), ds.read_chunk(cid)
        s = tuple(slice(*sorted((int(a * n), int(b * n) + 1))) for a, b, n in zip(op["cut"], op["cut"][3:], ds.shape))
        s = tuple(slice(x.start, min(x.stop, n)) for x, n in zip(s, ds.shape))
        if o == "read":
            return ds[s]
        if op["scalar"]:
            ds[s] = 7
        else:
            ds[s] = M.make(op["pat"], [max(0, x.stop - x.start) for x in s], ds.dtype)
    elif o == "attr":
        f[name].attrs[op["key"]] = op["value"]
    elif o == "attr_del":
        del f[name].attrs[op["key"]]
    elif o == "attrs":
        return sorted(f[name].attrs.items(), key=lambda x: x[0]), len(f.attrs)
    elif o == "keys":
        return sorted(f.keys()), len(f), [sorted(f[k].keys()) for k in sorted(f) if f.is_sub_group(k)]
    elif o == "visit":
        seen = []
        f.visititems(lambda n, x: seen.append((n, type(x).__name__)))
        return sorted(seen)
    elif o == "del":
        del f[name]
    elif o == "in":
        return name in f
    elif o == "kind":
        return f.is_sub_group(name)
    elif o == "get":
        x = f[name]
        return type(x).__name__, x.name, getattr(x, "shape", None), getattr(x, "chunks", None), str(getattr(x, "dtype", "")), getattr(x, "compression", None), getattr(x, "fill_value", None)
    elif o == "pickle":
        x = pickle.loads(pickle.dumps(f[name]))
        return type(x).__name__, x.name, sorted(x.attrs.items(), key=lambda x: x[0]), x[...] if hasattr(x, "shape") else sorted(x.keys())


def attempt(f, op, sets):
    try:
        return None, one(f, op, sets)
    except Exception as e:
        return e, None


def python(case, ctx):
    import z5py
    b = Bucket(case["page"])
    root = case["root"]
    sib = {root + "2/.zgroup": b"{}", root + "x": b"1", "other/zarr.json": b"{}"}
    for k, v in sib.items():
        b.put(k, v)
    path = os.path.join(ctx.dir(), "p.zarr")
    zf = 3 if case["fmt"] == "z3" else 2
    kw = dict(zarr_format=zf)
    if case["sep"]:
        kw["dimension_separator"] = case["sep"]

    def pair(mode):
        res = []
        for make in (lambda: z5py.File(path, mode, use_zarr_format=True, **kw),
                     lambda: z5py.S3File("b", root, mode, endpoint_url="http://localhost:1", access_key="k", secret_key="s", **kw)):
            try:
                res.append((None, make()))
            except Exception as e:
                res.append((e, None))
        (ea, fa), (eb, fb) = res
        check((ea is None) == (eb is None), "opening in mode %s: file %r, S3 %r", mode, ea, eb)
        if ea is not None:
            check(type(ea) is type(eb), "opening in mode %s raises %r for a file, %r for S3", mode, ea, eb)
        return fa, fb

    def compare(what):
        objs = b.objects()
        fs, s3 = norm({k: v for k, v in M.snapshot(path).items() if not k.endswith("/")} if os.path.isdir(path) else {}, ""), norm(objs, root + "/")
        diff = sorted(k for k in set(fs) | set(s3) if fs.get(k, None) != s3.get(k, None))
        check(not diff, "after %s the stored objects differ: %s", what, [(k, str(fs.get(k))[:80], str(s3.get(k))[:80]) for k in diff[:3]])
        check(all(objs.get(k) == v for k, v in sib.items()) and len(objs) == len(sib) + sum(k.startswith(root + "/") for k in objs),
              "after %s: objects outside of the container changed", what)

    if case["ops"][0]["k"] % 4 == 0:
        fa, fb = pair(["r", "r+"][case["ops"][0]["k"] % 2])
        check(fa is None, "a missing container was opened")
    fa, fb = pair("a")
    stored = 0
    sets, nodes = set(), set()
    for op in case["ops"]:
        if op["op"] == "reopen":
            na, nb = pair(op["mode"])
            if na is not None:
                fa, fb = na, nb
                if op["mode"] == "w":
                    sets, nodes = set(), set()
            compare("opening in mode %s" % op["mode"])
            ctx.label("mode:" + op["mode"])
            continue
        # most operations go to something that exists
        want = {"write": sets, "read": sets, "chunk": sets, "attr": nodes, "attr_del": nodes, "attrs": nodes, "del": nodes, "pickle": nodes, "get": nodes, "kind": nodes, "in": nodes}.get(op["op"])
        if want and op["k"] % 8:
            op = dict(op, name=sorted(want)[op["k"] // 8 % len(want)])
        ea, ra = attempt(fa, op, None)
        eb, rb = attempt(fb, op, None)
        text = {k: v for k, v in op.items() if k != "pat"}
        check((ea is None) == (eb is None), "%s: file %r gives %r, S3 %r gives %r", text, ea, ra, eb, rb)
        if ea is not None:
            check(type(ea) is type(eb), "%s raises %r for a file, %r for S3", text, ea, eb)
            ctx.label("refused:" + op["op"])
        else:
            if isinstance(ra, tuple) and op["op"] in ("chunk", "pickle"):
                check(len(ra) == len(rb) and all(same_result(x, y) for x, y in zip(ra, rb)), "%s: file %r, S3 %r", text, ra, rb)
            else:
                check(same_result(ra, rb), "%s: file %r, S3 %r", text, ra, rb)
            ctx.label("op:" + op["op"])
            stored += op["op"] in ("write", "create_dataset")
            if op["op"] == "del":
                sets, nodes = ({n for n in x if n != op["name"] and not n.startswith(op["name"] + "/")} for x in (sets, nodes))
            elif op["op"].startswith(("create", "require")):
                nodes.add(op["name"])
                if op["op"].endswith("dataset"):
                    sets.add(op["name"])
        compare(text)
    ctx.nontrivial = stored > 0


DEFS = ("-DWITH_S3", "-I" + os.path.join(VERIF, "cpp", "fakeaws"))
SUBS = [
    CppSub("history", "p25_s3", "history", quick=2000, san="asan", replays=25, defs=DEFS),
    CppSub("faults", "p25_s3", "faults", quick=3000, san="asan", replays=25, defs=DEFS),
    CppSub("damaged", "p25_s3", "damaged", quick=2000, san="asan", replays=25, defs=DEFS),
    Sub("python", py_case, python, quick=3000),
    CppSub("many", "p25_s3", "many", quick=150, san="asan", replays=10, defs=DEFS),
]

"""P09: attributes behave as a persistent JSON dictionary beside protected metadata."""
import json

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv import spec
from zv.core import Sub, check

RULE = ("A case is a container (n5, zarr v2, zarr v3, sharded zarr v3) with a root, nested groups and two datasets, and a history of 6-25 attribute operations on any of them (set, update, delete, pop, "
        "setdefault, get, clear, listings, refused values, refused reserved keys, re-opens, second handles, data writes), replayed on one python dict per object. After every operation the object "
        "is compared, at the end all objects, the stored JSON (through an independent reader), the metadata and the data. Non-trivial: at least three mutations, of which one hits an object that has "
        "other keys, and a re-open or second handle.")
TECHNIQUE = "stateful model-based property testing: attribute histories replayed on python dicts, with an independent reader of the stored JSON"
ASSUMPTIONS = ["integers have to fit int64 or uint64 and keys are strings without lone surrogates; an n5 group on which all four reserved dataset keys are set becomes a dataset to every reader, including z5 (recorded as a known finding)"]

OBJS = ["/", "g", "g/h", "d", "g/e"]
DSETS = ("d", "g/e")
PROTECTED = ("dimensions", "blockSize", "dataType", "compressionType", "compression")


def keys_for(fmt, obj):
    extra = []
    if fmt != "n5":
        extra = list(PROTECTED) + ["n5"]
    elif obj in DSETS:
        extra = ["n5"]
    else:
        extra = ["dimensions", "dataType", "compressionType"] + ([] if obj == "/" else ["n5"])
    return st.one_of(st.sampled_from(["a", "b", "c"]), st.sampled_from(["a", "b", "c"]), M.attr_keys(), st.sampled_from(extra))


BAD = ["nan", "inf", "object", "bytes", "surrogate-key", "surrogate", "huge"]


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(M.FMTS))
    ops = []
    for _ in range(draw(st.integers(6, 25))):
        obj = draw(st.sampled_from(OBJS))
        k = draw(st.sampled_from(["set", "set", "set", "update", "del", "del", "pop", "setdefault", "get", "list", "clear", "bad", "reserved", "reopen", "handle", "data"]))
        o = dict(op=k, o=obj)
        if k in ("set", "setdefault"):
            o["k"], o["v"] = draw(keys_for(fmt, obj)), draw(M.json_values())
        elif k == "update":
            o["d"] = draw(st.dictionaries(keys_for(fmt, obj), M.json_values(), max_size=4))
            o["kw"] = draw(st.sampled_from(["dict", "pairs", "kwargs"]))
        elif k in ("del", "pop", "get"):
            o["k"] = draw(keys_for(fmt, obj))
        elif k == "bad":
            o["b"], o["k"] = draw(st.sampled_from(BAD)), draw(st.sampled_from(["a", "b", "new"]))
        elif k == "reserved":
            o["k"], o["how"] = draw(st.sampled_from(PROTECTED)), draw(st.sampled_from(["set", "del", "update", "pop"]))
        elif k == "data":
            o["s"] = draw(st.integers(0, 1000))
        ops.append(o)
    return dict(fmt=fmt, ops=ops, shape=draw(M.shapes(3, {1: 8, 2: 5, 3: 3})), codec=draw(st.booleans()))


class Enc(json.JSONEncoder):
    def default(self, o):
        if isinstance(o, complex):
            return {"__complex__": [o.real, o.imag]}
        return json.JSONEncoder.default(self, o)


class Dec(json.JSONDecoder):
    def __init__(self, *a, **kw):
        super().__init__(object_hook=self.hook, *a, **kw)

    @staticmethod
    def hook(d):
        return complex(*d["__complex__"]) if set(d) == {"__complex__"} else d


def meta_part(path, fmt, is_ds):
    """The metadata of an object without its attributes, from the stored files."""
    import os
    if fmt == "n5":
        p = path + "/attributes.json"
        if not os.path.exists(p):
            return None
        j = json.load(open(p))
        return {k: j.get(k) for k in PROTECTED} if is_ds else None
    if fmt == "z2":
        return open(path + ("/.zarray" if is_ds else "/.zgroup")).read()
    j = json.load(open(path + "/zarr.json"))
    j.pop("attributes", None)
    return j


def run(case, ctx):
    import z5py
    fmt = case["fmt"]
    root = ctx.path(M.ext_of(fmt))
    f = M.open_file(root, fmt)
    f.create_group("g").create_group("h")
    shape = case["shape"]
    kw = dict(shape=tuple(shape), chunks=tuple(max(1, s // 2) for s in shape), dtype="int16", compression="gzip")
    if fmt == "z3s":
        kw["shards"] = tuple(2 * c for c in kw["chunks"])
    f.create_dataset("d", **kw)
    f["g"].create_dataset("e", **kw)
    data = {n: np.zeros(shape, dtype="int16") for n in DSETS}
    ref = {o: {} for o in OBJS}
    if fmt == "n5":
        v = f.attrs["n5"]
        check(isinstance(v, str), "the n5 version of the root is %r", v)
        ref["/"]["n5"] = v

    def path(o):
        return root + ("" if o == "/" else "/" + o)

    def handle(o):
        return f if o == "/" else f[o]
    meta0 = {o: meta_part(path(o), fmt, o in DSETS) for o in OBJS}
    handles = {o: handle(o) for o in OBJS}
    muts = merged = other = 0

    def compare(o, a, what):
        got = dict(a)
        check(M.same_json(got, ref[o]), "attributes of %s after %s: %r, expected %r", o, what, got, ref[o])
        check(len(a) == len(ref[o]), "len(attrs) of %s: %d", o, len(a))
    for i, op in enumerate(case["ops"]):
        o, k = op["o"], op["op"]
        a = handles[o].attrs
        r = ref[o]
        what = "op %d %s" % (i, op)
        snap = M.snapshot(root)
        refused = False
        if k == "set":
            if r:
                merged += 1
            a[op["k"]] = op["v"]
            r[op["k"]] = op["v"]
            muts += 1
        elif k == "setdefault":
            got = a.setdefault(op["k"], op["v"])
            want = r.setdefault(op["k"], op["v"])
            check(M.same_json(got, want), "%s gives %r instead of %r", what, got, want)
        elif k == "update":
            if r:
                merged += 1
            if op["kw"] == "pairs":
                a.update(list(op["d"].items()))
            elif op["kw"] == "kwargs":
                a.update(**op["d"])
            else:
                a.update(op["d"])
            r.update(op["d"])
            muts += 1
        elif k in ("del", "pop"):
            protected = o == "/" and fmt == "n5" and op["k"] == "n5"
            try:
                got = a.pop(op["k"]) if k == "pop" else a.__delitem__(op["k"])
            except KeyError:
                check(op["k"] not in r, "%s raised a KeyError for an existing key", what)
            else:
                check(op["k"] in r and not protected, "%s did not raise", what)
                want = r.pop(op["k"])
                check(k == "del" or M.same_json(got, want), "%s gives %r instead of %r", what, got, want)
                muts += 1
        elif k == "get":
            miss = object()
            got = a.get(op["k"], miss)
            if op["k"] in r:
                check(got is not miss and M.same_json(got, r[op["k"]]), "%s gives %r", what, got)
                check(M.same_json(a[op["k"]], r[op["k"]]), "%s", what)
            else:
                check(got is miss, "%s gives %r", what, got)
                try:
                    a[op["k"]]
                except KeyError:
                    pass
                else:
                    check(False, "%s: no KeyError", what)
            check((op["k"] in a) == (op["k"] in r), "%s: membership", what)
        elif k == "list":
            check(sorted(a) == sorted(r) and sorted(a.keys()) == sorted(r) and len(list(a.values())) == len(r), "%s: keys %r instead of %r", what, sorted(a), sorted(r))
        elif k == "clear":
            if fmt == "n5" and o == "/":
                continue
            a.clear()
            r.clear()
            muts += 1
        elif k == "bad":
            bk, v = op["k"], 1
            if op["b"] == "nan":
                v = [float("nan")]
            elif op["b"] == "inf":
                v = float("inf")
            elif op["b"] == "object":
                v = object()
            elif op["b"] == "bytes":
                v = {"x": b"abc"}
            elif op["b"] == "surrogate":
                v = "\ud800"
            elif op["b"] == "surrogate-key":
                bk = "\udfff"
            else:
                continue
            try:
                a[bk] = v
            except Exception:
                refused = True
            else:
                check(False, "%s was accepted", what)
        elif k == "reserved":
            if not (fmt == "n5" and o in DSETS):
                continue
            check(op["k"] not in a and a.get(op["k"]) is None and op["k"] not in list(a), "%s is visible", op["k"])
            try:
                if op["how"] == "set":
                    a[op["k"]] = [1, 2]
                elif op["how"] == "update":
                    a.update({"a": "changed", op["k"]: 1, "zz": 0})
                elif op["how"] == "pop":
                    a.pop(op["k"])
                else:
                    del a[op["k"]]
            except Exception:
                refused = True
            else:
                check(False, "%s was accepted", what)
        elif k == "reopen":
            f = M.open_file(root, fmt, "r+")
            handles = {x: handle(x) for x in OBJS}
            other += 1
        elif k == "handle":
            handles[o] = handle(o)
            other += 1
        else:
            x = DSETS[op["s"] % 2]
            v = np.random.default_rng(op["s"]).integers(0, 3, size=shape).astype("int16")
            handles[x][...] = v
            data[x] = v
        ctx.label(k)
        after = M.snapshot(root)
        if refused or k in ("get", "list", "reopen", "handle"):
            check(not M.snapdiff(snap, after), "%s changed files: %s", what, M.snapdiff(snap, after))
        elif k != "data":
            own = ("" if o == "/" else o + "/") + {"n5": "attributes.json", "z2": ".zattrs"}.get(fmt, "zarr.json")
            ch = [p for p in set(snap) | set(after) if snap.get(p, 0) != after.get(p, 0)]
            check(all(p == own for p in ch), "%s changed %s", what, ch)
        compare(o, handles[o].attrs, what)
    # fresh handles, the stored files, metadata and data
    f2 = M.open_file(root, fmt, "r")
    for o in OBJS:
        h = f2 if o == "/" else f2[o]
        compare(o, h.attrs, "re-opening")
        m = meta_part(path(o), fmt, o in DSETS)
        check(m == meta0[o], "the metadata of %s changed from %s to %s", o, meta0[o], m)
        if o in DSETS:
            check(M.same(h[...], data[o]), "the data of %s changed", o)
            a = spec.read(path(o))
            check(M.same_json(a.attrs, ref[o]), "stored attributes of %s: %r, expected %r", o, a.attrs, ref[o])
            check(M.same(a.data, data[o]), "stored data of %s", o)
        else:
            check(isinstance(h, z5py.Group), "%s is no group any more", o)
            p = path(o) + {"n5": "/attributes.json", "z2": "/.zattrs"}.get(fmt, "/zarr.json")
            try:
                j = json.load(open(p))
            except FileNotFoundError:
                j = {}
            if fmt in ("z3", "z3s"):
                j = j.get("attributes", {})
            check(M.same_json(j, ref[o]), "stored attributes of %s: %r, expected %r", o, j, ref[o])
    check(sorted(f2.keys()) == ["d", "g"] and sorted(f2["g"].keys()) == ["e", "h"], "the hierarchy changed: %s %s", list(f2.keys()), list(f2["g"].keys()))
    if case["codec"]:
        from z5py import set_json_decoder, set_json_encoder
        try:
            set_json_encoder(Enc)
            set_json_decoder(Dec)
            f = M.open_file(root, fmt, "a")
            for n, o in enumerate(OBJS):
                h = f if o == "/" else f[o]
                h.attrs["z"] = [complex(n, -1.5)]
                check(h.attrs["z"] == [complex(n, -1.5)], "custom codec: %r", h.attrs["z"])
        finally:
            set_json_encoder(None)
            set_json_decoder(None)
        for n, o in enumerate(OBJS):
            h = f2 if o == "/" else f2[o]
            ref[o]["z"] = [{"__complex__": [float(n), -1.5]}]
            compare(o, h.attrs, "custom codec")
        ctx.label("codec")
    ctx.nontrivial = muts >= 3 and merged >= 1 and other >= 1


def group_reserved(case, ctx):
    """Known finding: a group with the four reserved keys as attributes."""
    import z5py
    root = ctx.path(".n5")
    f = z5py.File(root, "a")
    g = f.create_group("g")
    try:
        g.attrs.update(dict(dimensions=[1], blockSize=[1], dataType="uint8", compression={"type": "raw"}))
    except Exception:
        return
    check(isinstance(f["g"], z5py.Group), "the group is a %s", type(f["g"]))


SUBS = [Sub("history", cases, run, quick=3000, batch=50),
        Sub("group-reserved", lambda: st.just({}), group_reserved, quick=0)]
FINDINGS = {"n5-group-reserved": ("group-reserved", {})}

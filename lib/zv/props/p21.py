"""P21: creating and requiring datasets follows the documented contract."""
import os

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv.core import Sub, check
from zv.props import p07

TECHNIQUE = "stateful model-based property testing of create_dataset / require_dataset call sequences; single-defect negative cases"
RULE = ("A case is a container of one of four formats and 3-12 calls of create_dataset and require_dataset (through the file or a group, plain, nested and oddly spelled names) on fresh and existing names. A call is either valid, with every argument given, spelled differently "
        "(list, tuple, numpy integers, several dtype spellings), left to its documented default or taken from data, or has exactly one defect (existing name, group in the way, dataset as ancestor, invalid name, contradicting shape, dtype or chunks, missing argument, read-only file, "
        "or one of the invalid arguments of P07). Valid calls must give exactly the requested or default properties and contents (on creation), or the untouched existing dataset (require); refused ones must raise and leave every stored dataset as it was (missing intermediate groups may have been made). "
        "At the end all objects are compared with the model through a fresh handle. Non-trivial: at least one refused call and one require of an existing dataset.")
ASSUMPTIONS = ["data of another byte order or an unsupported data type may be refused", "missing intermediate groups may be left behind by a refused call"]

NAMES = ["a", "a", "a", "b", "g/a", "g/a", "g/h/c", "x/y", "g", "d"]
SPELL = ["plain", "plain", "plain", "lead", "double", "trail", "group"]
DEFECTS = ["exists", "exists", "ancestor", "name", "no-shape", "no-dtype", "data-shape", "data-dtype", "readonly", "arg", "arg", "arg", "arg"]
RDEFECTS = ["shape", "shape", "dtype", "chunks", "group", "name", "ancestor", "ndim", "all", "nchunks", "byteorder"]
BADNAMES = [".", "..", "a/../b", ".zarray", "g/.zgroup", "zarr.json", "attributes.json", ".zattrs", "x\0y", "", "/", "../a", "g/."]
DTS = ["str", "np", "type", "code", "scalar"]


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(M.FMTS))
    sep = draw(st.sampled_from([".", "/"]))
    ops = []
    for _ in range(draw(st.integers(3, 12))):
        o = dict(op=draw(st.sampled_from(["create", "create", "require", "require", "group", "write"])), name=draw(st.sampled_from(NAMES)), spell=draw(st.sampled_from(SPELL)), k=draw(st.integers(0, 10 ** 6)))
        cfg = draw(M.configs(fmts=[fmt], max_ndim=draw(st.sampled_from([2, 3, 5]))))
        o["cfg"] = cfg
        o["leave"] = draw(st.lists(st.sampled_from(["chunks", "compression", "fillvalue", "n_threads", "shape", "dtype", "shards", "chunk_key_encoding"]), max_size=4, unique=True))
        o["data"] = draw(st.sampled_from([None, None, "C", "F", "strided"]))
        o["d"] = draw(M.pattern())
        o["seq"] = draw(st.sampled_from(["tuple", "list", "np", "arr"]))
        o["dt"] = draw(st.sampled_from(DTS))
        if draw(st.integers(0, 2)) == 0:
            o["defect"] = draw(st.sampled_from(DEFECTS))
            if o["defect"] == "arg":
                o["argk"] = draw(st.integers(0, 1000))
        ops.append(o)
    return dict(fmt=fmt, sep=sep, ops=ops)


ARGS = {"n5": ["codec", "codec-format", "option", "dtype", "dtype-format", "zero-shape", "zero-chunk", "neg-shape", "neg-chunk", "ndim-chunk", "0d", "float-shape", "shards-format", "fill-type"],
        "z2": ["codec", "codec-format", "option", "dtype", "dtype-format", "zero-shape", "zero-chunk", "neg-shape", "neg-chunk", "ndim-chunk", "0d", "float-shape", "shards-format", "fill-type", "fill-range"],
        "z3": ["codec", "codec-format", "option", "dtype", "dtype-format", "zero-shape", "zero-chunk", "neg-shape", "neg-chunk", "ndim-chunk", "0d", "float-shape", "encoding", "fill-type", "fill-range"],
        "z3s": ["codec", "codec-format", "option", "dtype", "dtype-format", "zero-shape", "zero-chunk", "neg-shape", "neg-chunk", "ndim-chunk", "0d", "float-shape", "encoding", "fill-type",
                "shards-multiple", "shards-zero", "shards-ndim", "shards-overflow", "fill-range"]}


def seq(v, how):
    v = tuple(int(x) for x in v)
    return {"tuple": v, "list": list(v), "np": tuple(np.int64(x) for x in v), "arr": tuple(np.array(v, dtype="uint32"))}[how]


def dtype_arg(dt, how):
    dt = np.dtype(dt)
    return {"str": dt.name, "np": dt, "type": dt.type, "code": dt.str, "scalar": dt.char}[how]


def default_chunks(shape):
    d = int(round(262144 ** (1. / len(shape))))
    return [min(d, s) for s in shape]


def resolve(cfg, fmt, leave, kw, data):
    """Leave arguments to their defaults; the configuration that this has to give."""
    cfg = dict(cfg)
    if "chunks" in leave:
        kw.pop("chunks")
        cfg["chunks"] = default_chunks(cfg["shape"])
        if fmt == "z3s":
            cfg["shards"] = [c * (1 + i % 2) for i, c in enumerate(cfg["chunks"])]
            kw["shards"] = tuple(cfg["shards"])
    if "compression" in leave:
        for k in [k for k in kw if k in cfg["copts"]]:
            kw.pop(k)
        kw.pop("compression")
        cfg["codec"] = "gzip" if fmt == "n5" else "blosc"
        cfg["copts"] = {}
    if "fillvalue" in leave:
        kw.pop("fillvalue")
        cfg["fill"] = 0
    if "n_threads" in leave:
        kw.pop("n_threads")
        cfg["threads"] = 1
    if "shards" in leave and fmt == "z3s":
        kw.pop("shards")
        cfg["shards"] = None
        cfg["fmt"] = "z3"
    if "chunk_key_encoding" in leave and "chunk_key_encoding" in kw:
        kw.pop("chunk_key_encoding")
        cfg["enc"] = "default"
    if data is not None:
        kw["data"] = data
        for a in ("shape", "dtype"):
            if a in leave:
                kw.pop(a)
    return cfg, kw


def run(case, ctx):
    import z5py
    fmt = case["fmt"]
    root = ctx.path(M.ext_of(fmt))
    f = M.open_file(root, fmt, "a", case["sep"])
    objs = {}                       # path -> None (group) or (cfg, array)
    refused, required = 0, 0

    def parents(p):
        q = p.split("/")
        return ["/".join(q[:i]) for i in range(1, len(q))]

    def blocked(p):
        return any(objs.get(q, None) is not None for q in parents(p) if q in objs)

    def below(p):
        return any(q.startswith(p + "/") for q in objs)

    def add(p, v):
        for q in parents(p):
            objs.setdefault(q, None)
        objs[p] = v

    def compare(ds, p, what):
        cfg, a = objs[p]
        p07.props(ds, cfg, p, what)
        got = ds[...]
        check(M.same(got, a), "%s: contents of %s: %s", what, p, M.diff(got, a))

    def look(file, what):
        for p, v in objs.items():
            h = file[p]
            if v is None:
                check(isinstance(h, z5py.Group), "%s: %s is not a group", what, p)
            else:
                compare(h, p, what)

    def snap():
        # groups and their metadata may appear
        s = M.snapshot(root)
        return {k: v for k, v in s.items() if not k.endswith("/") and any(k.startswith(p + "/") for p, v in objs.items() if v is not None)}

    def refuse(what, fn, kinds=Exception):
        nonlocal refused
        before, names = snap(), {p for p in objs}
        try:
            fn()
        except kinds:
            pass
        else:
            check(False, "%s was not refused", what)
        after = snap()
        check(before == after, "%s was refused, but changed %s", what, M.snapdiff(before, after))
        for p in ("a", "b", "d", "g/a", "g/b", "g/h/c", "x/y"):
            if p not in names and not blocked(p) and p in f:
                check(f.is_sub_group(p) and p in ("g", "x"), "%s was refused, but made %s", what, p)
        for p in ("g", "x", "g/h"):
            if p not in objs and not blocked(p) and p in f and f.is_sub_group(p):
                objs[p] = None
        refused += 1

    for i, o in enumerate(case["ops"]):
        p, cfg = o["name"], dict(o["cfg"])
        cfg["sep"] = case["sep"]
        what = "op %d: %s %s" % (i, o["op"], p)
        h, name = f, p
        if o["spell"] == "lead":
            name = "/" + p
        elif o["spell"] == "double":
            name = p.replace("/", "//")
        elif o["spell"] == "trail":
            name = p + "/"
        elif o["spell"] == "group" and "/" in p and not blocked(p):
            up = p.rsplit("/", 1)[0]
            if up not in objs or objs[up] is None:
                h, name = f.require_group(up), p.rsplit("/", 1)[1]
                add(up, None)
        if o["op"] == "group":
            if not blocked(p) and p not in objs:
                f.create_group(p)
                add(p, None)
            continue
        if o["op"] == "write":
            if objs.get(p) is not None:
                a = M.make(o["d"], objs[p][1].shape, objs[p][1].dtype, M.fill_of(objs[p][0]))
                f[p][...] = a
                objs[p] = (objs[p][0], a)
            continue
        kw = M.create_kwargs(cfg)
        kw["shape"], kw["chunks"] = seq(kw["shape"], o["seq"]), seq(kw["chunks"], o["seq"])
        kw["dtype"] = dtype_arg(cfg["dtype"], o["dt"])
        data = None
        if o["data"]:
            data = M.layout(M.make(o["d"], cfg["shape"], cfg["dtype"], M.fill_of(cfg)), o["data"])
        leave = [x for x in o["leave"] if not (o["op"] == "require" and x == "shape")]
        cfg, kw = resolve(cfg, fmt, leave, kw, data)
        if cfg["fmt"] == "z3s" and not cfg.get("shards"):
            cfg["fmt"] = "z3"
        call = getattr(h, o["op"] + "_dataset")
        d = o.get("defect")
        what += " " + str(d or "")
        if d in ("exists", None) and p in objs and o["op"] == "create":
            refuse(what + " (existing)", lambda: call(name, **kw))
            ctx.label("refused: existing name")
            continue
        if blocked(p):
            refuse(what + " (ancestor is a dataset)", lambda: call(name, **kw))
            ctx.label("refused: ancestor")
            continue
        if o["op"] == "require" and p in objs:
            if objs[p] is None:
                refuse(what + " (a group)", lambda: call(name, **kw))
                ctx.label("refused: group")
                continue
            ecfg, arr = objs[p]
            rk = dict(shape=seq(ecfg["shape"], o["seq"]))
            if o["k"] % 2:
                rk["dtype"] = dtype_arg(ecfg["dtype"], o["dt"])
            if o["k"] // 2 % 2:
                rk["chunks"] = seq(ecfg["chunks"] if o["k"] // 32 % 2 else M.chunks_of(ecfg), o["seq"])
            if o["k"] // 4 % 2:
                rk["n_threads"] = 1 + o["k"] % 5
            if o["k"] // 8 % 2:
                # only used for creation
                rk.update(fillvalue=9, data=np.zeros(ecfg["shape"], dtype=ecfg["dtype"]), compression="raw")
            if d:
                m = RDEFECTS[o["k"] % len(RDEFECTS)]
                ax = o["k"] % len(ecfg["shape"])
                if m in ("shape", "all"):
                    s = list(ecfg["shape"])
                    s[ax] += 1 if o["k"] % 4 else -1
                    rk["shape"] = tuple(s)
                elif m == "ndim":
                    rk["shape"] = tuple(ecfg["shape"]) + (1,) if o["k"] % 2 or len(ecfg["shape"]) == 1 else tuple(ecfg["shape"])[1:]
                elif m == "nchunks":
                    # too many or too few
                    s = M.chunks_of(ecfg)
                    rk["chunks"] = tuple(s) + (1,) if o["k"] % 2 or len(s) == 1 else tuple(s)[:-1]
                elif m == "chunks":
                    s = list(M.chunks_of(ecfg))
                    s[ax] = s[ax] + 1 if s[ax] + 1 <= ecfg["shape"][ax] else s[ax] - 1
                    if s[ax] < 1:
                        continue
                    rk["chunks"] = tuple(s)
                elif m == "byteorder":
                    if np.dtype(ecfg["dtype"]).itemsize == 1:
                        continue
                    rk["dtype"] = np.dtype(ecfg["dtype"]).newbyteorder("S" if o["k"] % 2 else ">")
                else:
                    rk["dtype"] = [x for x in M.DTYPES if x != ecfg["dtype"]][o["k"] % 9]
                refuse(what + " of an existing dataset with other %s: %s" % (m, rk), lambda: call(name, **rk))
                ctx.label("refused: require " + m)
                continue
            before = M.snapshot(root)
            ro = o["k"] // 16 % 3 == 0
            if ro:
                ds = M.open_file(root, fmt, "r").require_dataset(p, **rk)
            else:
                ds = call(name, **rk)
            check(M.snapshot(root) == before, "%s: requiring an existing dataset changed %s", what, M.snapdiff(before, M.snapshot(root)))
            compare(ds, p, what)
            check(ds.n_threads == rk.get("n_threads", 1), "%s: n_threads %s", what, ds.n_threads)
            required += 1
            ctx.label("required existing")
            continue
        if d == "exists":
            d = None
        if p in objs:
            continue
        if d is None or (d == "ancestor"):
            if below(p):
                continue
            ds = call(name, **kw)
            a = np.full(cfg["shape"], M.fill_of(cfg), dtype=cfg["dtype"]) if data is None else np.array(data)
            add(p, (cfg, a))
            compare(ds, p, what)
            check(ds.n_threads == cfg["threads"], "%s: n_threads is %s", what, ds.n_threads)
            stored = sum(1 for c in np.ndindex(*M.grid(cfg)) if ds.chunk_exists(c))
            check(data is not None or stored == 0, "%s: a new dataset has %d stored chunks", what, stored)
            for x in leave:
                ctx.label("default " + x)
            ctx.label("created")
            if data is not None:
                ctx.label("created with data")
            continue
        if d == "name":
            bad = BADNAMES[o["k"] % len(BADNAMES)]
            refuse("%s %r" % (what, bad), lambda: getattr(f, o["op"] + "_dataset")(bad, **kw))
        elif d == "readonly":
            r = M.open_file(root, fmt, "r")
            refuse(what, lambda: getattr(r, o["op"] + "_dataset")(p, **kw))
        elif d == "no-shape":
            kw.pop("shape", None)
            kw.pop("data", None)
            refuse(what, lambda: call(name, **kw))
        elif d == "no-dtype":
            kw.pop("dtype", None)
            kw.pop("data", None)
            refuse(what, lambda: call(name, **kw))
        elif d == "data-shape":
            kw["shape"] = tuple(cfg["shape"])
            s = list(cfg["shape"])
            s[o["k"] % len(s)] += 1
            if o["k"] % 3 == 0:
                s = s + [1]
            if o["k"] % 3 == 1 and int(np.prod(cfg["shape"])) > 1:
                s = [int(np.prod(cfg["shape"]))] if len(s) > 1 else [1] + list(cfg["shape"])
            kw["data"] = np.zeros(s, dtype=cfg["dtype"])
            refuse(what, lambda: call(name, **kw))
        elif d == "data-dtype":
            kw["dtype"] = cfg["dtype"]
            kw["data"] = np.zeros(cfg["shape"], dtype=[x for x in M.DTYPES if x != cfg["dtype"]][o["k"] % 9])
            kw["shape"] = tuple(cfg["shape"])
            refuse(what, lambda: call(name, **kw))
        elif d == "arg":
            b = [x for x in ARGS[fmt]]
            c2 = dict(o["cfg"])
            if c2["dtype"].startswith("f"):
                b = [x for x in b if not x.startswith("fill-range")]
            bad = b[o["argk"] % len(b)]
            kw2 = p07.spoil(dict(cfg=c2, bad=bad, k=o["k"]))
            if kw2 is None:
                continue
            if o["data"] and bad not in ("dtype", "dtype-format", "zero-shape", "neg-shape", "0d", "float-shape"):
                kw2["data"] = M.make(o["d"], c2["shape"], c2["dtype"])
            refuse(what + " " + bad, lambda: call(name, **kw2))
            ctx.label("refused: " + bad)
            # and the name is still free
            if not below(p) and not (p in f):
                cfg3 = dict(c2)
                cfg3["sep"] = case["sep"]
                ds = call(name, **M.create_kwargs(c2))
                add(p, (cfg3, np.full(c2["shape"], M.fill_of(c2), dtype=c2["dtype"])))
                compare(ds, p, what + ", then valid")
        ctx.label("refused: " + d)
    look(f, "at the end")
    look(M.open_file(root, fmt, "r"), "re-opened")
    ctx.label("fmt:" + fmt)
    ctx.nontrivial = refused > 0 and required > 0


SUBS = [Sub("calls", cases, run, quick=4000, batch=50)]

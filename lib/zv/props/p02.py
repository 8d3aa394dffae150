"""P02: what z5 stores is valid n5 / zarr that other implementations read identically."""
import json
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv import spec
from zv.core import Sub, check

RULE = ("A case is a dataset configuration (format, dtype, 1-5 dims, chunks, shards, codec and options, fill value, key layout, threads), 1-4 writes, scalar "
        "writes or chunk removals, and attributes, stored below 0-2 groups; the container is then read by an independent reader that sees only the "
        "files. varlen: n5 variable-length chunks (mode, rank, shape and length of the header, contents). Non-trivial: at least one chunk is stored and the data differ from the fill value.")
TECHNIQUE = ("differential property-based testing: generated containers written by z5 are read by a strict reader written from the specifications, by zarr-python and by tensorstore, "
             "and compared with the numpy model of the writes")
ASSUMPTIONS = ["local file system backend only",
               "n5 chunks compressed with lz4 may be bare LZ4 blocks (known finding n5-lz4)",
               "zarr-python and tensorstore as installed in the project's environment stand for other implementations"]


@st.composite
def cases(draw, fmts=M.FMTS, codecs=None):
    cfg = draw(M.configs(fmts=fmts, codecs=codecs))
    attrs = draw(st.dictionaries(M.attr_keys(), M.json_values(), max_size=3))
    return dict(cfg=cfg, w=draw(M.writes(cfg)), attrs=attrs, groups=draw(st.sampled_from([[], [], ["g"], ["g", "h"]])),
                gattrs=draw(st.dictionaries(M.attr_keys(), M.json_values(), max_size=2)))


@st.composite
def varlen_cases(draw):
    """n5 containers that hold variable-length chunks, too."""
    case = draw(cases(fmts=["n5"]))
    cfg = case["cfg"]
    n = int(np.prod(M.chunks_of(cfg)))
    case["vl"] = draw(st.lists(st.fixed_dictionaries(dict(
        c=st.tuples(*[st.integers(0, g - 1) for g in M.grid(cfg)]).map(list), n=st.one_of(st.integers(1, 3 * n + 2), st.sampled_from([1, n, n + 1])), d=M.pattern())), min_size=1, max_size=4))
    return case


def build(case, ctx):
    cfg = case["cfg"]
    root = ctx.path(M.ext_of(cfg["fmt"]))
    f = M.open_file(root, cfg["fmt"], "a", cfg.get("sep"))
    name = "/".join(case["groups"] + ["data"])
    ds = f.create_dataset(name, **M.create_kwargs(cfg))
    ref = M.apply_writes(ds, M.model_of(cfg), cfg, case["w"])
    ctx.vl = {}
    for v in case.get("vl", ()):
        el = M.make(v["d"], (v["n"],), np.dtype(cfg["dtype"]), M.fill_of(cfg))
        ds.write_chunk(tuple(v["c"]), el, True)
        ref[M.chunk_slices(cfg, v["c"])] = 0
        ctx.vl[tuple(v["c"])] = el
    for k, v in case["attrs"].items():
        ds.attrs[k] = v
    for k, v in case["gattrs"].items():
        (f[case["groups"][0]] if case["groups"] else f).attrs[k] = v
    ctx.label("fmt:" + cfg["fmt"])
    ctx.label("codec:" + cfg["fmt"] + ":" + cfg["codec"])
    ctx.label("dtype:" + cfg["dtype"])
    ctx.label("options", bool(cfg["copts"]))
    ctx.label("fill", cfg["fill"] != 0)
    ctx.label("groups", bool(case["groups"]))
    ctx.nontrivial = not M.same(ref, M.model_of(cfg))
    return root, os.path.join(root, name), ref


BLOSC_V2 = {"codec": "cname", "clevel": "clevel", "level": "clevel", "shuffle": "shuffle", "blocksize": "blocksize"}
SHUF = {0: "noshuffle", 1: "shuffle", 2: "bitshuffle"}
N5_OPT = {"gzip": "level", "bzip2": "blockSize", "xz": "preset", "lz4": "blockSize", "zstd": "level"}


def check_options(cfg, a):
    """The options that were asked for are the ones in the metadata."""
    for k, v in cfg["copts"].items():
        if cfg["codec"] == "blosc":
            key = BLOSC_V2[k]
            want = SHUF[v] if key == "shuffle" and cfg["fmt"] in ("z3", "z3s") else v
        else:
            key = N5_OPT[cfg["codec"]] if cfg["fmt"] == "n5" else "level"
            want = v
        check(a.copts.get(key) == want, "option %s=%r is stored as %r", k, v, a.copts)


def check_groups(case, root):
    """Groups on the way to the dataset carry the metadata their format demands."""
    fmt = case["cfg"]["fmt"]
    p = root
    for i, g in enumerate([None] + case["groups"]):
        p = p if g is None else os.path.join(p, g)
        gattrs = case["gattrs"] if i == (1 if case["groups"] else 0) else {}
        have = set(x for x in os.listdir(p) if os.path.isfile(os.path.join(p, x)))
        if fmt == "z2":
            check(".zgroup" in have and have <= {".zgroup", ".zattrs"}, "group %r holds %s", g, sorted(have))
            check(spec.load_json(p + "/.zgroup") == {"zarr_format": 2}, "bad .zgroup")
            got = spec.load_json(p + "/.zattrs") if ".zattrs" in have else {}
        elif fmt in ("z3", "z3s"):
            check(have == {"zarr.json"}, "group %r holds %s", g, sorted(have))
            j = spec.load_json(p + "/zarr.json")
            check(j.get("zarr_format") == 3 and j.get("node_type") == "group" and set(j) <= {"zarr_format", "node_type", "attributes"}, "bad group metadata %s", j)
            got = j.get("attributes", {})
        else:
            check(have <= {"attributes.json"}, "group %r holds %s", g, sorted(have))
            got = spec.load_json(p + "/attributes.json") if have else {}
            if g is None:
                check(isinstance(got.get("n5"), str), "the n5 root has no version: %s", got)
                got.pop("n5")
        check(M.same_json(got, gattrs), "attributes of group %r are %r, not %r", g, got, gattrs)


def by_spec(case, ctx):
    cfg = case["cfg"]
    root, path, ref = build(case, ctx)
    a = spec.read(path, bare_lz4=case.get("lz4") != "framed")
    check(a.shape == tuple(cfg["shape"]), "shape %s", a.shape)
    check(a.chunks == tuple(M.chunks_of(cfg)), "chunks %s", a.chunks)
    check(a.shards == (tuple(cfg["shards"]) if cfg["fmt"] == "z3s" else None), "shards %s", a.shards)
    check(a.dtype == np.dtype(cfg["dtype"]), "dtype %s", a.dtype)
    check(a.codec == cfg["codec"], "codec %s", a.codec)
    check(M.same(a.fill, M.fill_of(cfg)), "fill value %r", a.fill)
    check(M.same_json(a.attrs, case["attrs"]), "attributes %r", a.attrs)
    check_options(cfg, a)
    check_groups(case, root)
    check(M.same(a.data, ref), "data: %s", M.diff(a.data, ref))
    vl = ctx.vl
    check(set(a.varlen) == set(vl), "varlen chunks %s instead of %s", sorted(a.varlen), sorted(vl))
    for c, el in vl.items():
        check(M.same(a.varlen[c], el), "varlen chunk %s: %s", c, M.diff(a.varlen[c], el))
    ctx.nontrivial = ctx.nontrivial or bool(vl)
    ctx.label("varlen-edge", any(t != u for c in vl for t, u in zip([x.stop - x.start for x in M.chunk_slices(cfg, c)], M.chunks_of(cfg))))
    for (o, n) in [(a.raw[c], c) for c in a.raw]:
        if cfg["codec"] == "blosc":
            h = spec.blosc_header(o)
            check(h["typesize"] == a.dtype.itemsize, "chunk %s is shuffled with typesize %d", n, h["typesize"])
            want = {"blosclz": 0, "lz4": 1, "lz4hc": 1, "zlib": 3, "zstd": 4}[cfg["copts"].get("codec", "lz4")]
            if not h["memcpy"]:
                # blosc stores data that does not shrink verbatim
                check(h["fmt"] == want, "chunk %s uses blosc format %d, the metadata says %s", n, h["fmt"], a.copts)
                sh = cfg["copts"].get("shuffle", 1)
                # single bytes are never byte-shuffled
                check(h["bitshuffle"] == (sh == 2) and h["shuffle"] == (sh == 1), "chunk %s has flags %s, the metadata says %s", n, h, a.copts)


def by_zarr(case, ctx):
    import zarr
    cfg = case["cfg"]
    root, path, ref = build(case, ctx)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        z = zarr.open(root, mode="r")
        check(isinstance(z, zarr.Group), "the root is not a group")
        node = z
        for g in case["groups"]:
            check(g in list(node.group_keys()), "%s is not listed in %s", g, list(node.group_keys()))
            node = node[g]
            check(isinstance(node, zarr.Group), "%s is not a group", g)
        check(list(node.array_keys()) == ["data"], "arrays %s", list(node.array_keys()))
        x = node["data"]
        check(x.shape == tuple(cfg["shape"]) and x.chunks == tuple(M.chunks_of(cfg)) and x.dtype == np.dtype(cfg["dtype"]), "shape, chunks, dtype: %s %s %s", x.shape, x.chunks, x.dtype)
        check((x.shards or None) == (tuple(cfg["shards"]) if cfg["fmt"] == "z3s" else None), "shards %s", x.shards)
        check(M.same(np.asarray(x.fill_value).astype(cfg["dtype"]), M.fill_of(cfg)), "fill value %r", x.fill_value)
        got = x[...]
        check(M.same(np.asarray(got), ref), "data: %s", M.diff(np.asarray(got), ref))
        check(M.same_json(dict(x.attrs), case["attrs"]), "attributes %r", dict(x.attrs))


def by_ts(case, ctx):
    import tensorstore as ts
    cfg = case["cfg"]
    root, path, ref = build(case, ctx)
    if cfg["fmt"] == "n5" and cfg["codec"] == "blosc":
        # tensorstore refuses the key "nthreads", which the n5-blosc reference implementation writes too
        j = json.load(open(path + "/attributes.json"))
        j["compression"].pop("nthreads", None)
        with open(path + "/attributes.json", "w") as o:
            json.dump(j, o)
    drv = {"n5": "n5", "z2": "zarr", "z3": "zarr3", "z3s": "zarr3"}[cfg["fmt"]]
    t = ts.open({"driver": drv, "kvstore": {"driver": "file", "path": path + "/"}}, read=True).result()
    got = t.read().result()
    if cfg["fmt"] == "n5":
        got = got.T
    check(np.dtype(t.dtype.numpy_dtype) == np.dtype(cfg["dtype"]), "dtype %s", t.dtype)
    check(M.same(np.ascontiguousarray(got), ref), "data: %s", M.diff(got, ref))


TSC = {"n5": ["raw", "gzip", "bzip2", "xz", "blosc", "zstd"]}


def ts_cases():
    return st.one_of(cases(fmts=["n5"], codecs=TSC["n5"]), cases(fmts=["z2", "z3", "z3s"]))


# only runs the probe of the known finding
LZ4 = dict(cfg=dict(fmt="n5", shape=[6], chunks=[4], dtype="int32", codec="lz4", copts={}, fill=0, threads=1), w=[dict(op="w", r=[[0, 6]], d=dict(p="ramp", s=1))],
           attrs={}, groups=[], gattrs={}, lz4="framed")
FINDINGS = {"n5-lz4": ("n5-lz4", LZ4)}

SUBS = [Sub("n5-lz4", lambda: st.just(LZ4), by_spec, quick=0),
        Sub("spec", cases, by_spec, quick=1600, batch=50),
        Sub("varlen", varlen_cases, by_spec, quick=300, batch=50),
        Sub("zarr-python", lambda: cases(fmts=["z2", "z3", "z3s"]), by_zarr, quick=400, thorough=12000, batch=50),
        Sub("tensorstore", ts_cases, by_ts, quick=600, thorough=16000, batch=50)]

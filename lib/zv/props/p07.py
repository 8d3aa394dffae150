"""P07: dataset metadata round-trips through creation, files and re-opening."""
import os

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv import spec
from zv.core import CppSub, Sub, check

RULE = ("A case is a dataset configuration: format, 1-5 dims with extents up to 2^40, chunk shape, shard shape, dtype, codec with options, fill value over the range of the dtype, key layout, depth "
        "below the root; created by create_dataset or require_dataset, then used and re-opened in three modes. Non-trivial: at least two of options, fill value, "
        "shards, non-default key layout, huge extents, nesting are set. In the invalid sub-check one argument is made invalid (always non-trivial). "
        "api / api_invalid (C++, AddressSanitizer): the same for createDataset and DatasetMetadata of the C++ interface with all 12 data types and every combination of key encoding and separator; the stored document and the "
        "place of the chunk files are compared with the specification, readMetadata must give back the document and create the same dataset again.")
TECHNIQUE = "property-based round-trip testing: generated configurations are created, parsed from the stored metadata by an independent reader, re-opened, used and re-created from what is reported"
ASSUMPTIONS = ["fill values of 64 bit integers beyond 2^53 belong to P17 (known finding there)",
               "codec options that only the encoder can judge (blosc names, levels out of range) may be refused at the first write instead of at creation"]


def fills(dtype):
    dt = np.dtype(dtype)
    if dt.kind == "f":
        fi = np.finfo(dt)
        w = 32 if dt.itemsize == 4 else 64
        return st.one_of(M.fill_values(dtype), st.floats(width=w, allow_nan=False, allow_infinity=False), st.sampled_from([float(fi.max), float(fi.min), float(fi.tiny), float(fi.smallest_subnormal), 0.1 if w == 64 else 0.5]))
    ii = np.iinfo(dt)
    return st.one_of(M.fill_values(dtype), st.integers(max(ii.min, -2 ** 53), min(ii.max, 2 ** 53)))


@st.composite
def cases(draw):
    cfg = draw(M.configs())
    if cfg["fmt"] != "n5":
        cfg["fill"] = draw(fills(cfg["dtype"]))
    if draw(st.integers(0, 3)) == 0:
        # huge extents: only the metadata and a small corner are used
        k = draw(st.integers(0, len(cfg["shape"]) - 1))
        cfg["shape"][k] = draw(st.sampled_from([2 ** 31 - 1, 2 ** 31, 2 ** 32 + 5, 2 ** 40, 10 ** 6]))
        if cfg["fmt"] == "z3s":
            cfg["shards"] = [c * draw(st.integers(1, 3)) for c in M.chunks_of(cfg)]
    if cfg["codec"] == "blosc" and cfg["fmt"] == "n5" and draw(st.booleans()):
        cfg["copts"]["nthreads"] = draw(st.integers(1, 3))
    return dict(cfg=cfg, groups=draw(st.sampled_from([[], [], ["g"], ["g", "h"]])), how=draw(st.sampled_from(["create", "require", "group"])), touch=draw(st.lists(st.sampled_from(["w", "s", "rm", "r", "reopen", "exists", "props"]), max_size=5)), d=draw(M.pattern()))


DEFAULTS = {"gzip": {"level": 5}, "zlib": {"level": 5}, "bzip2": {"level": 5}, "xz": {"level": 6}, "lz4": {"level": 6}, "zstd": {"level": 3}, "raw": {},
            "blosc": {"codec": "lz4", "level": 5, "shuffle": 1, "blocksize": 0, "nthreads": 1}}


def want_opts(cfg):
    o = dict(DEFAULTS[cfg["codec"]])
    o.update({("level" if k == "clevel" else k): v for k, v in cfg["copts"].items()})
    return o


def props(ds, cfg, name, what):
    check(ds.shape == tuple(cfg["shape"]), "%s: shape %s", what, ds.shape)
    check(ds.ndim == len(cfg["shape"]), "%s: ndim %s", what, ds.ndim)
    check(ds.size == int(np.prod([int(x) for x in cfg["shape"]], dtype=object)), "%s: size %s", what, ds.size)
    check(len(ds) == cfg["shape"][0], "%s: len %s", what, len(ds))
    check(ds.chunks == tuple(M.chunks_of(cfg)), "%s: chunks %s", what, ds.chunks)
    check(ds.shards == (tuple(cfg["shards"]) if cfg["fmt"] == "z3s" else None), "%s: shards %s", what, ds.shards)
    check(ds.dtype == np.dtype(cfg["dtype"]), "%s: dtype %s", what, ds.dtype)
    check(ds.is_zarr == (cfg["fmt"] != "n5"), "%s: is_zarr %s", what, ds.is_zarr)
    check(tuple(ds.chunks_per_dimension) == tuple(M.grid(cfg)), "%s: chunks_per_dimension %s", what, ds.chunks_per_dimension)
    check(ds.number_of_chunks == int(np.prod(M.grid(cfg), dtype=object)), "%s: number_of_chunks %s", what, ds.number_of_chunks)
    codec = "bz2" if cfg["codec"] == "bzip2" and cfg["fmt"] != "n5" else cfg["codec"]
    check(ds.compression in (codec, cfg["codec"]), "%s: compression %s", what, ds.compression)
    want = want_opts(cfg)
    got = dict(ds.compression_opts)
    check(got == want, "%s: compression_opts %s instead of %s", what, got, want)
    check(ds.name == "/" + name, "%s: name %s", what, ds.name)


METAFILE = {"n5": "attributes.json", "z2": ".zarray", "z3": "zarr.json", "z3s": "zarr.json"}


def corner(cfg):
    return tuple(slice(0, min(s, 9)) for s in cfg["shape"])


def roundtrip(case, ctx):
    cfg = case["cfg"]
    root = ctx.path(M.ext_of(cfg["fmt"]))
    name = "/".join(case["groups"] + ["data"])
    f = M.open_file(root, cfg["fmt"], "a", cfg.get("sep"))
    kw = M.create_kwargs(cfg)
    if case["how"] == "create":
        ds = f.create_dataset(name, **kw)
    elif case["how"] == "require":
        ds = f.require_dataset(name, **kw)
    else:
        g = f
        for x in case["groups"]:
            g = g.create_group(x)
        ds = g.create_dataset("data", **kw)
    props(ds, cfg, name, "created")
    path = os.path.join(root, name)
    huge = max(cfg["shape"]) > 10 ** 5
    fill = M.fill_of(cfg)
    mf = os.path.join(path, METAFILE[cfg["fmt"]])
    with open(mf, "rb") as fh:
        meta = fh.read()
    if not huge:
        a = spec.read(path)
    else:
        a = read_meta(path)
    check(a.shape == tuple(cfg["shape"]) and a.chunks == tuple(M.chunks_of(cfg)) and a.dtype == np.dtype(cfg["dtype"]) and a.codec == cfg["codec"], "stored metadata %s", meta)
    check(a.shards == (tuple(cfg["shards"]) if cfg["fmt"] == "z3s" else None), "stored shards %s", a.shards)
    check(M.same(a.fill, fill), "stored fill value %r instead of %r", a.fill, fill)
    check(not a.attrs, "stored attributes %r", a.attrs)
    c = corner(cfg)
    ref = np.full([s.stop for s in c], fill, dtype=cfg["dtype"])
    for step in case["touch"] + ["reopen", "r"]:
        if step == "w":
            ref = M.make(case["d"], ref.shape, cfg["dtype"], fill)
            ds[c] = ref
        elif step == "s":
            ds[c] = fill
            ref = np.full(ref.shape, fill, dtype=cfg["dtype"])
        elif step == "rm":
            ds._impl.remove_chunk([0] * ds.ndim)
            ref = ref.copy()
            ref[tuple(slice(0, n) for n in M.chunks_of(cfg))] = fill
        elif step == "r":
            got = ds[c]
            check(M.same(np.asarray(got).reshape(ref.shape), ref), "%s: %s", step, M.diff(np.asarray(got).reshape(ref.shape), ref))
        elif step == "exists":
            ds.chunk_exists([0] * ds.ndim)
            ds.get_chunk_shape([0] * ds.ndim)
            list(ds.attrs.keys())
        elif step == "props":
            props(ds, cfg, name, "used")
        else:
            for mode in ("r", "a", "r+"):
                ds = M.open_file(root, cfg["fmt"], mode)[name]
                props(ds, cfg, name, "re-opened '%s'" % mode)
        with open(mf, "rb") as fh:
            check(fh.read() == meta, "%s changed the metadata file", step)
    # what is reported is enough to make the same dataset again
    kw2 = dict(shape=ds.shape, chunks=ds.chunks, dtype=ds.dtype, compression={"bz2": "bzip2"}.get(ds.compression, ds.compression), fillvalue=M.fill_arg(cfg["fill"]))
    kw2.update(ds.compression_opts)
    if ds.shards:
        kw2["shards"] = ds.shards
    if cfg["fmt"] in ("z3", "z3s"):
        kw2["chunk_key_encoding"] = cfg["enc"]
    f = M.open_file(root, cfg["fmt"], "a", cfg.get("sep"))
    f.create_dataset("again", **kw2)
    with open(os.path.join(root, "again", METAFILE[cfg["fmt"]]), "rb") as fh:
        check(fh.read() == meta, "re-created from the reported properties: other metadata")
    score = sum([bool(cfg["copts"]), cfg["fill"] != 0, cfg["fmt"] == "z3s", cfg.get("sep") == "/" or cfg.get("enc") == "v2", huge, bool(case["groups"])])
    ctx.nontrivial = score >= 2
    ctx.label("fmt:" + cfg["fmt"])
    ctx.label("codec:" + cfg["fmt"] + ":" + cfg["codec"])
    ctx.label("huge", huge)
    ctx.label("how:" + case["how"])


def read_meta(path):
    """spec.read without looking for every chunk of a huge array."""
    orig = spec.grid
    spec.grid = lambda shape, chunks: iter(())
    spec.META_ONLY = True
    try:
        return spec.read(path)
    finally:
        spec.grid = orig
        spec.META_ONLY = False


BAD = ["codec", "codec-format", "option", "dtype", "dtype-format", "zero-shape", "zero-chunk", "neg-shape", "neg-chunk", "ndim-chunk", "0d", "shards-multiple", "shards-zero",
       "shards-ndim", "shards-format", "fill-range", "fill-frac", "fill-type", "encoding", "separator", "overflow", "float-shape", "shards-overflow", "fill-nan-int"]


@st.composite
def bad_cases(draw):
    c = draw(M.configs())
    fmt = c["fmt"]
    ok = [b for b in BAD]
    if fmt == "n5":
        # n5 has no fill value in its metadata
        ok = [b for b in ok if b not in ("fill-range", "fill-frac", "fill-nan-int", "encoding", "separator")]
    elif fmt == "z2":
        ok = [b for b in ok if b != "encoding"]
    else:
        ok = [b for b in ok if b != "separator"]
    if fmt != "z3s":
        ok = [b for b in ok if not (b.startswith("shards") and b != "shards-format")]
    else:
        ok = [b for b in ok if b != "shards-format"]
    if fmt == "z3":
        ok = [b for b in ok if b != "shards-format"]
    if c["dtype"].startswith("f"):
        ok = [b for b in ok if b not in ("fill-range", "fill-frac", "fill-nan-int")]
    return dict(cfg=c, bad=draw(st.sampled_from(ok)), k=draw(st.integers(0, 1000)), existing=draw(st.booleans()))


def spoil(case):
    c = case["cfg"]
    kw = M.create_kwargs(c)
    b, k = case["bad"], case["k"]
    nd = len(c["shape"])
    ax = k % nd

    def put(key, v):
        x = list(kw[key])
        x[ax] = v
        kw[key] = tuple(x)
    if b == "codec":
        kw["compression"] = ["lzma", "GZIP", "", "blosc2", "snappy"][k % 5]
    elif b == "codec-format":
        kw["compression"] = {"n5": ["zlib"], "z2": ["xz"], "z3": ["xz", "bzip2", "zlib", "lz4"], "z3s": ["xz", "bzip2", "zlib", "lz4"]}[c["fmt"]][0]
    elif b == "option":
        kw["leevel"] = 3
    elif b == "dtype":
        kw["dtype"] = ["bool", "complex128", "S4", "float16", "M8[s]", "O"][k % 6]
    elif b == "dtype-format":
        kw["dtype"] = ["nonsense", "uint7", "complex64"][k % 3]
    elif b == "zero-shape":
        put("shape", 0)
    elif b == "zero-chunk":
        put("chunks", 0)
    elif b == "neg-shape":
        put("shape", -1 - k)
    elif b == "neg-chunk":
        put("chunks", -1 - k)
    elif b == "ndim-chunk":
        kw["chunks"] = kw["chunks"] + (1,) if k % 2 else kw["chunks"][1:]
    elif b == "0d":
        kw["shape"], kw["chunks"] = (), ()
        if "shards" in kw:
            kw["shards"] = ()
    elif b == "shards-multiple":
        ch = M.chunks_of(c)[ax]
        if ch == 1:
            return None
        put("shards", ch * (1 + k % 3) + 1 + k % (ch - 1))
    elif b == "shards-zero":
        put("shards", 0)
    elif b == "shards-ndim":
        kw["shards"] = kw["shards"] + (2,) if k % 2 or nd == 1 else kw["shards"][1:]
    elif b == "shards-format":
        kw["shards"] = tuple(M.chunks_of(c))
    elif b == "shards-overflow":
        put("shards", M.chunks_of(c)[ax] * 2 ** 62)
        if k % 2:
            kw["shards"] = tuple(x * 2 ** 40 for x in M.chunks_of(c))
            if nd < 2:
                return None
    elif b == "fill-range":
        ii = np.iinfo(c["dtype"])
        kw["fillvalue"] = [float(ii.max) * 2 + 2, float(ii.min) - 1e6 if ii.min == 0 else float(ii.min) * 2 - 2, 1e300][k % 3]
    elif b == "fill-frac":
        # not an invalid request: the fraction may be dropped, but then both have to agree
        kw["fillvalue"] = 1.5
    elif b == "fill-nan-int":
        kw["fillvalue"] = [float("nan"), float("inf"), float("-inf")][k % 3]
    elif b == "fill-type":
        kw["fillvalue"] = ["x", [1], {}][k % 3]
    elif b == "encoding":
        kw["chunk_key_encoding"] = ["V2", "suffix", "", "fanout"][k % 4]
    elif b == "separator":
        kw["dimension_separator"] = ["-", "", "..", "//", "\\"][k % 5]
    elif b == "overflow":
        put("shape", 2 ** 63 + k)
        if k % 2 and nd > 1:
            kw["shape"] = tuple(2 ** 40 for _ in c["shape"])
        elif k % 2:
            put("shape", 2 ** 64 + 1)
    elif b == "float-shape":
        put("shape", 2.5)
    return kw


def invalid(case, ctx):
    cfg = case["cfg"]
    kw = spoil(case)
    if kw is None:
        return
    root = ctx.path(M.ext_of(cfg["fmt"]))
    f = M.open_file(root, cfg["fmt"], "a", cfg.get("sep"))
    if case["existing"]:
        f.create_dataset("other", shape=(3,), chunks=(2,), dtype="uint8", data=np.arange(3, dtype="uint8"))
    if case["bad"] == "separator" and cfg["fmt"] == "z2":
        # the separator belongs to the file
        snap = M.snapshot(root)
        try:
            import z5py
            g = z5py.File(root + "2.zarr", "a", use_zarr_format=True, zarr_format=2, dimension_separator=kw.pop("dimension_separator"))
            g.create_dataset("data", **kw)
        except Exception:
            pass
        else:
            check(False, "an invalid separator was accepted")
        ctx.nontrivial = True
        ctx.label("bad:separator")
        return
    snap = M.snapshot(root)
    ctx.nontrivial = True
    ctx.label("bad:" + case["bad"])
    try:
        ds = f.create_dataset("data", **kw)
    except Exception:
        d = M.snapdiff(snap, M.snapshot(root))
        check(not d, "refused %s left files: %s", case["bad"], d)
        check("data" not in f, "refused %s left a dataset", case["bad"])
        ctx.label("refused")
        # and the name is still free
        M.create_kwargs(cfg)
        f.create_dataset("data", **M.create_kwargs(cfg))
        return
    if case["bad"] in ("fill-frac", "overflow"):
        # accepted: then what is stored must describe what was made (a fraction is dropped; an array with 2^80 elements may be addressed by chunks)
        got = M.open_file(root, cfg["fmt"], "r")["data"]
        check(got.shape == tuple(kw["shape"]) == ds.shape, "shape %s / %s", got.shape, ds.shape)
        one = tuple(0 for _ in got.shape)
        check(M.same(ds[one], got[one]) and (case["bad"] == "overflow" or got[one] == 1), "fill value %r / %r", ds[one], got[one])
        return
    check(False, "%s was accepted: %s", case["bad"], kw)


SUBS = [Sub("roundtrip", cases, roundtrip, quick=4000, batch=50),
        Sub("invalid", bad_cases, invalid, quick=4000, batch=50),
        CppSub("api", "p07_meta", "api", quick=3000),
        CppSub("api_invalid", "p07_meta", "api_invalid", quick=3000)]

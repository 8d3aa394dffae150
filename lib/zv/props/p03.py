"""P03: z5 reads conforming containers written by others exactly, and refuses what it does not support."""
import json
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv import spec
from zv.core import Sub, check

RULE = ("A case is an array (format, dtype, 1-5 dims, chunk and shard shape, fill value, data, set of absent chunks, attributes) written by an implementation other "
        "than z5 (a writer made from the specifications with randomly varied legal choices: JSON layout, optional keys, encoder settings, key separators, edge padding, order and "
        "gaps in shards; zarr-python; tensorstore) and then read through z5. In the unsupported sub-check one feature outside of z5's set is added. "
        "Non-trivial: at least one chunk is stored and its data differ from the fill value.")
TECHNIQUE = "differential property-based testing: containers produced by an independent specification-level writer, zarr-python and tensorstore are read by z5 and compared with the array that was written"
ASSUMPTIONS = ["legal but rare encodings that the format's usual writers never produce (gzip or zstd chunks of several members) may be refused; they must not be misread",
               "n5 lz4 frames are not understood (known finding n5-lz4)"]


def layout_strategy(draw, fmt):
    shape = draw(M.shapes())
    chunks = [draw(st.integers(1, max(1, (s + 1) // 2))) if draw(st.integers(0, 3)) else draw(st.integers(1, s + 2)) for s in shape]
    while np.prod([-(-s // c) for s, c in zip(shape, chunks)]) > 60:
        k = int(np.argmax([-(-s // c) for s, c in zip(shape, chunks)]))
        chunks[k] = min(shape[k], chunks[k] * 2)
    return shape, chunks


def enc_options(draw, fmt, codec, itemsize):
    o = {}
    if draw(st.booleans()):
        o["level"] = draw(st.integers(1, 9))
    if codec == "gzip":
        if draw(st.booleans()):
            o["fname"] = "x.bin"
        o["mtime"] = draw(st.sampled_from([0, 1234567890]))
    if codec == "xz":
        o["check"] = draw(st.integers(0, 3))
    if codec == "blosc":
        o["cname"] = draw(st.sampled_from(M.BLOSC_CODECS))
        o["shuffle"] = draw(st.integers(0, 2))
        o["blocksize"] = draw(st.sampled_from([0, 0, 64, 4096]))
        if fmt == "n5":
            # the n5 reference writes whatever typesize it likes; decoders take it from the frame
            o["typesize"] = draw(st.sampled_from([itemsize, 1, 4]))
    if codec == "zstd":
        o["checksum"] = draw(st.booleans())
    return o


@st.composite
def arrays(draw, fmts=M.FMTS):
    fmt = draw(st.sampled_from(fmts))
    shape, chunks = layout_strategy(draw, fmt)
    c = dict(fmt=fmt, shape=shape, chunks=chunks, dtype=draw(st.sampled_from(M.DTYPES)))
    c["codec"] = draw(st.sampled_from([x for x in M.CODECS[fmt] if x != "lz4"]))
    c["fill"] = 0 if fmt == "n5" else draw(M.fill_values(c["dtype"]))
    if fmt == "z3s":
        c["shards"] = [ch * draw(st.integers(1, 4)) for ch in chunks]
    w = dict(enc=enc_options(draw, fmt, c["codec"], np.dtype(c["dtype"]).itemsize))
    w["shuffle_keys"] = draw(st.integers(0, 99))
    w["indent"] = draw(st.sampled_from([None, 0, 2, 4]))
    w["optional"] = draw(st.booleans())
    if fmt == "n5":
        if c["codec"] == "gzip" and draw(st.booleans()):
            w["useZlib"] = draw(st.booleans())
        if c["codec"] in ("gzip", "raw"):
            w["old_compression"] = draw(st.integers(0, 4)) == 0
    else:
        w["garbage"] = draw(st.sampled_from([None, None, 1, 2, 3]))
    if fmt == "z2":
        w["sep"] = draw(st.sampled_from([None, ".", "/"]))
    if fmt in ("z3", "z3s"):
        w["encoding"] = draw(st.sampled_from(["default", "v2"]))
        w["sep"] = draw(st.sampled_from([None, ".", "/"]))
    if fmt == "z3s":
        if draw(st.booleans()):
            w["order_seed"] = draw(st.integers(0, 99))
        w["gaps"] = draw(st.booleans())
        w["empty_shards"] = draw(st.integers(0, 4)) == 0
    c["w"] = w
    c["data"] = draw(M.pattern())
    c["omit"] = draw(st.sampled_from([0, 0, 0.3, 0.7]))
    c["attrs"] = draw(st.dictionaries(M.attr_keys(), M.json_values(), max_size=3))
    return c


def expected(c):
    """(array, ids of the chunks that are left out)"""
    dt = np.dtype(c["dtype"])
    fill = dt.type(M.fill_arg(c["fill"]))
    a = M.make(c["data"], c["shape"], dt, fill)
    cells = list(spec.grid(c["shape"], c["chunks"]))
    rng = np.random.default_rng(c["data"]["s"])
    omit = set(x for x in cells if rng.random() < c["omit"])
    for cid in omit:
        a[tuple(slice(i * k, (i + 1) * k) for i, k in zip(cid, c["chunks"]))] = fill
    return a, omit, fill


def write(c, path, a, omit, fill):
    if c["fmt"] == "n5":
        spec.write_n5(path, a, c["chunks"], c["codec"], c["w"], omit, c["attrs"])
    elif c["fmt"] == "z2":
        spec.write_z2(path, a, c["chunks"], c["codec"], fill, c["w"], omit, c["attrs"])
    else:
        spec.write_z3(path, a, c["chunks"], c["codec"], fill, c["w"], c.get("shards"), omit, c["attrs"])


def root_meta(c, root):
    if c["fmt"] == "n5":
        spec.dump(root + "/attributes.json", {"n5": "2.1.3"}, {})
    elif c["fmt"] == "z2":
        spec.dump(root + "/.zgroup", {"zarr_format": 2}, {})
    else:
        spec.dump(root + "/zarr.json", {"zarr_format": 3, "node_type": "group", "attributes": {}}, {})


def compare(c, root, a, fill, name="data", meta=True, attrs=None):
    import z5py
    f = z5py.File(root, "r")
    ds = f[name]
    check(ds.shape == tuple(c["shape"]), "shape %s", ds.shape)
    check(ds.dtype == np.dtype(c["dtype"]), "dtype %s", ds.dtype)
    if meta:
        check(ds.chunks == tuple(c["chunks"]), "chunks %s", ds.chunks)
        check(ds.shards == (tuple(c["shards"]) if c.get("shards") else None), "shards %s", ds.shards)
        want = {"bzip2": ("bzip2", "bz2")}.get(c["codec"], (c["codec"],))
        if c["fmt"] == "n5" and c["codec"] == "gzip" and c["w"].get("useZlib"):
            want = ("gzip", "zlib")
        check(ds.compression in want, "compression %s", ds.compression)
    got = ds[...]
    check(M.same(got, a), "data: %s", M.diff(got, a))
    ds.n_threads = 4
    got = ds[...]
    check(M.same(got, a), "data with 4 threads: %s", M.diff(got, a))
    # a region and a single chunk
    rng = np.random.default_rng(c["data"]["s"] + 1)
    r = tuple(sorted(rng.integers(0, s + 1, size=2)) for s in c["shape"])
    s = tuple(slice(int(x[0]), int(x[1]) if x[1] > x[0] else int(x[0]) + 1) for x in [(min(p[0], q - 1), p[1]) for p, q in zip(r, c["shape"])])
    got = ds[s]
    check(M.same(np.asarray(got).reshape(a[s].shape), a[s]), "region %s: %s", s, M.diff(np.asarray(got).reshape(a[s].shape), a[s]))
    at = {k: ds.attrs[k] for k in ds.attrs}
    check(M.same_json(at, c["attrs"]), "attributes %r", at)
    return ds


def conform(c, ctx):
    a, omit, fill = expected(c)
    root = ctx.path(M.ext_of(c["fmt"]))
    root_meta(c, root)
    write(c, root + "/data", a, omit, fill)
    ctx.label("fmt:" + c["fmt"])
    ctx.label("codec:" + c["fmt"] + ":" + c["codec"])
    ctx.label("fill", c["fill"] != 0)
    ctx.label("chunk-larger-than-shape", any(x > y for x, y in zip(c["chunks"], c["shape"])))
    for k, v in c["w"].items():
        ctx.label("choice:" + k, v not in (None, False, {}) and k != "enc")
    ctx.nontrivial = not M.same(a, np.full(c["shape"], fill, dtype=a.dtype))
    snap = M.snapshot(root)
    compare(c, root, a, fill)
    d = M.snapdiff(snap, M.snapshot(root))
    check(not d, "reading changed files: %s", d)


UNSUPPORTED = {
    "z2": ["big-endian", "order-F", "delta", "gzip-members", "zstd-frames", "unknown-codec", "bool", "complex", "fill-null"],
    "z3": ["big-endian", "transpose", "crc", "gzip-members", "zstd-frames", "unknown-codec", "bool", "float16", "complex", "storage-transformer", "grid", "node-type", "format-4", "codec-before-bytes"],
    "z3s": ["big-endian", "transpose", "crc", "index-nocrc", "index-start", "nested", "unknown-codec", "shard-then-gzip", "index-big-endian"],
    "n5": ["unknown-codec", "bool", "gzip-members", "zstd-frames"],
}


@st.composite
def unsupported(draw):
    c = draw(arrays())
    c["feature"] = draw(st.sampled_from(UNSUPPORTED[c["fmt"]]))
    if c["feature"] == "gzip-members":
        c["codec"] = "gzip"
        c["w"].pop("useZlib", None)
    if c["feature"] == "zstd-frames":
        c["codec"] = "zstd"
    if c["feature"] == "delta":
        c["dtype"] = draw(st.sampled_from([d for d in M.DTYPES if not d.startswith("f")]))
        c["fill"] = 0
    if c["feature"] == "codec-before-bytes" and c["codec"] == "raw":
        c["codec"] = "gzip"
    c["omit"] = draw(st.sampled_from([0, 0, 0.3]))
    c["data"] = dict(p=draw(st.sampled_from(["rand", "ramp", "small"])), s=draw(st.integers(0, 999)))
    if c["w"].get("encoding") == "v2":
        c["w"]["encoding"] = "default"
    return c


def edit(path, fn):
    with open(path) as f:
        j = json.load(f)
    fn(j)
    with open(path, "w") as f:
        json.dump(j, f)


def unsup(c, ctx):
    a, omit, fill = expected(c)
    root = ctx.path(M.ext_of(c["fmt"]))
    root_meta(c, root)
    path = root + "/data"
    w, ft = c["w"], c["feature"]
    c = dict(c, w=w)
    if ft == "big-endian":
        w["endian"] = ">"
    elif ft == "order-F":
        w["order"] = "F"
    elif ft == "delta":
        w["filters"] = [dict(id="delta", dtype=a.dtype.newbyteorder("<").str)]
    elif ft == "zstd-frames":
        w["enc"]["frames"] = 2
    elif ft == "transpose":
        w["transpose"] = list(range(len(c["shape"])))[::-1]
    elif ft == "crc":
        w["crc"] = True
    elif ft == "index-nocrc":
        w["index_nocrc"] = True
    elif ft == "index-start":
        w["index_start"] = True
    write(c, path, a, omit, fill)
    mf = path + "/" + {"n5": "attributes.json", "z2": ".zarray"}.get(c["fmt"], "zarr.json")
    inexact = False
    sure = False     # must be refused, as no reading of the metadata gives the data that is expected
    if ft == "gzip-members":
        import gzip
        for p, v in M.snapshot(path).items():
            if v is None or p.endswith(("json", ".zarray", ".zattrs")):
                continue
            h = 4 + 4 * len(c["shape"]) if c["fmt"] == "n5" else 0
            raw = gzip.decompress(v[h:])
            with open(os.path.join(path, p), "wb") as f:
                f.write(v[:h] + gzip.compress(raw[:len(raw) // 2]) + gzip.compress(raw[len(raw) // 2:]))
    elif ft == "unknown-codec":
        sure = True

        def fn(j):
            if c["fmt"] == "n5":
                j.pop("compressionType", None)
                j["compression"] = {"type": "lzma9"}
            elif c["fmt"] == "z2":
                j["compressor"] = {"id": "zfpy", "level": 1}
            else:
                cs = j["codecs"][0]["configuration"]["codecs"] if c["fmt"] == "z3s" else j["codecs"]
                del cs[1:]
                cs.append({"name": "numcodecs.zfpy", "configuration": {"level": 1}})
        edit(mf, fn)
    elif ft in ("bool", "complex", "float16"):
        sure = True
        edit(mf, lambda j: j.update({"n5": {"dataType": ft}, "z2": {"dtype": {"bool": "|b1", "complex": "<c8"}.get(ft)},
                                     "z3": {"data_type": {"complex": "complex64"}.get(ft, ft)}}[c["fmt"]]))
    elif ft == "fill-null":
        edit(mf, lambda j: j.update(fill_value=None))
        inexact = bool(omit)
    elif ft == "storage-transformer":
        edit(mf, lambda j: j.update(storage_transformers=[{"name": "somebody.transformer", "configuration": {}}]))
        sure = True
    elif ft == "grid":
        edit(mf, lambda j: j.update(chunk_grid={"name": "rectilinear", "configuration": {"kind": "inline", "chunk_shape": c["chunks"], "chunk_shapes": [c["chunks"]]}}))
        sure = True
    elif ft == "node-type":
        edit(mf, lambda j: j.update(node_type="group"))
        sure = True
    elif ft == "format-4":
        edit(mf, lambda j: j.update(zarr_format=4))
        sure = True
    elif ft == "codec-before-bytes":
        edit(mf, lambda j: j.update(codecs=j["codecs"][::-1]))
        sure = True
    elif ft == "nested":
        def fn(j):
            cfg = j["codecs"][0]["configuration"]
            cfg["codecs"] = [{"name": "sharding_indexed", "configuration": dict(chunk_shape=c["chunks"], codecs=cfg["codecs"], index_codecs=cfg["index_codecs"])}]
        edit(mf, fn)
        sure = True
    elif ft == "shard-then-gzip":
        edit(mf, lambda j: j["codecs"].append({"name": "gzip", "configuration": {"level": 1}}))
        sure = True
    elif ft == "index-big-endian":
        edit(mf, lambda j: j["codecs"][0]["configuration"]["index_codecs"][0].update(configuration={"endian": "big"}))
        sure = True
    ctx.label("feature:" + ft)
    ctx.nontrivial = not M.same(a, np.full(c["shape"], fill, dtype=a.dtype))
    import z5py
    try:
        f = z5py.File(root, "r")
        ds = f["data"]
        got = ds[...]
    except Exception:
        ctx.label("refused:" + ft)
        return
    check(not sure, "a %s array with %s was read without an exception", c["fmt"], ft)
    if not inexact:
        check(M.same(got, a), "%s: wrong data instead of an exception: %s", ft, M.diff(got, a))
    ctx.label("exact:" + ft)


# --- zarr-python and tensorstore as writers -----------------------------------------------------

@st.composite
def lib_cases(draw, fmts):
    c = draw(arrays(fmts))
    c["w"] = dict(enc=c["w"]["enc"], sep=c["w"].get("sep"), encoding=c["w"].get("encoding"), path=c["w"].get("shuffle_keys", 0) % 2)
    c["parts"] = draw(st.lists(M.regions(c["shape"]), min_size=1, max_size=3))
    return c


def parts(c):
    dt = np.dtype(c["dtype"])
    fill = dt.type(M.fill_arg(c["fill"]))
    a = np.full(c["shape"], fill, dtype=dt)
    src = M.make(c["data"], c["shape"], dt, fill)
    for r in c["parts"]:
        s = M.sl(r)
        a[s] = src[s]
        yield s, src[s], a
    return


def zarr_writer(c, ctx):
    import zarr
    import zarr.codecs as zc
    root = ctx.path(".zarr")
    dt = np.dtype(c["dtype"])
    fill = dt.type(M.fill_arg(c["fill"]))
    o = c["w"]["enc"]
    lev = o.get("level", 5)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        v = 2 if c["fmt"] == "z2" else 3
        g = zarr.open_group(root, mode="w", zarr_format=v)
        g.attrs["root"] = 1
        kw = {}
        if v == 2:
            import numcodecs
            comp = {"raw": lambda: None, "zlib": lambda: numcodecs.Zlib(lev), "gzip": lambda: numcodecs.GZip(lev), "bzip2": lambda: numcodecs.BZ2(lev),
                    "zstd": lambda: numcodecs.Zstd(lev, o.get("checksum", False)),
                    "blosc": lambda: numcodecs.Blosc(o["cname"], lev, o["shuffle"], o["blocksize"])}[c["codec"]]()
            kw["compressors"] = comp
            kw["chunk_key_encoding"] = {"name": "v2", "separator": c["w"]["sep"] or "."}
        else:
            comp = {"raw": lambda: None, "gzip": lambda: zc.GzipCodec(level=lev), "zstd": lambda: zc.ZstdCodec(level=lev, checksum=o.get("checksum", False)),
                    "blosc": lambda: zc.BloscCodec(typesize=dt.itemsize, cname=o["cname"], clevel=lev, shuffle=["noshuffle", "shuffle", "bitshuffle"][o["shuffle"]], blocksize=o["blocksize"])}[c["codec"]]()
            kw["compressors"] = comp
            kw["chunk_key_encoding"] = {"name": c["w"]["encoding"], "separator": c["w"]["sep"] or ("." if c["w"]["encoding"] == "v2" else "/")}
            if c["fmt"] == "z3s":
                kw["shards"] = tuple(c["shards"])
        if v == 2:
            kw["filters"] = None
        name = "g/data" if c["w"]["path"] else "data"
        x = g.create_array(name, shape=tuple(c["shape"]), chunks=tuple(c["chunks"]), dtype=dt, fill_value=fill.item(), attributes=c["attrs"], **kw)
        for s, src, a in parts(c):
            x[s] = src
    ctx.label("fmt:" + c["fmt"])
    ctx.label("codec:" + c["fmt"] + ":" + c["codec"])
    ctx.nontrivial = not M.same(a, np.full(c["shape"], fill, dtype=dt))
    compare(c, root, a, fill, name)
    import z5py
    check(z5py.File(root, "r").attrs["root"] == 1, "root attribute")


def ts_writer(c, ctx):
    import tensorstore as ts
    root = ctx.path(M.ext_of(c["fmt"]))
    dt = np.dtype(c["dtype"])
    fill = dt.type(M.fill_arg(c["fill"]))
    o = c["w"]["enc"]
    lev = o.get("level", 5)
    c = dict(c, attrs={})
    kv = {"driver": "file", "path": root + "/data/"}
    shape, chunks = list(c["shape"]), list(c["chunks"])
    root_meta(c, root)
    if c["fmt"] == "n5":
        comp = {"raw": {"type": "raw"}, "gzip": {"type": "gzip", "level": lev}, "bzip2": {"type": "bzip2", "blockSize": lev}, "xz": {"type": "xz", "preset": min(lev, 6)},
                "zstd": {"type": "zstd", "level": lev},
                "blosc": {"type": "blosc", "cname": o.get("cname"), "clevel": lev, "shuffle": o.get("shuffle"), "blocksize": o.get("blocksize", 0)}}[c["codec"]]
        sp = {"driver": "n5", "kvstore": kv, "metadata": {"dimensions": shape[::-1], "blockSize": chunks[::-1], "dataType": dt.name, "compression": comp}}
    elif c["fmt"] == "z2":
        comp = {"raw": None, "gzip": {"id": "gzip", "level": lev}, "zlib": {"id": "zlib", "level": lev}, "bzip2": {"id": "bz2", "level": lev}, "zstd": {"id": "zstd", "level": lev},
                "blosc": {"id": "blosc", "cname": o.get("cname"), "clevel": lev, "shuffle": o.get("shuffle"), "blocksize": o.get("blocksize", 0)}}[c["codec"]]
        sp = {"driver": "zarr", "kvstore": kv, "metadata": {"shape": shape, "chunks": chunks, "dtype": ("|" if dt.itemsize == 1 else "<") + dt.kind + str(dt.itemsize),
              "fill_value": spec.jfill(fill), "compressor": comp, "order": "C", "filters": None, "dimension_separator": c["w"]["sep"] or "."}}
    else:
        codecs = spec._v3_codecs(c["codec"], dt, dict(o, level=lev), {})
        for x in codecs:
            if x["name"] == "zstd":
                x["configuration"].pop("checksum")
        if c["fmt"] == "z3s":
            codecs = [{"name": "sharding_indexed", "configuration": {"chunk_shape": chunks, "codecs": codecs}}]
        sp = {"driver": "zarr3", "kvstore": kv, "metadata": {"shape": shape, "data_type": dt.name, "fill_value": spec.jfill(fill), "codecs": codecs,
              "chunk_grid": {"name": "regular", "configuration": {"chunk_shape": c.get("shards") or chunks}},
              "chunk_key_encoding": {"name": c["w"]["encoding"], "configuration": {"separator": c["w"]["sep"] or ("." if c["w"]["encoding"] == "v2" else "/")}}}}
    t = ts.open(sp, create=True).result()
    for s, src, a in parts(c):
        if c["fmt"] == "n5":
            t[tuple(s[::-1])].write(src.T).result()
        else:
            t[s].write(src).result()
    ctx.label("fmt:" + c["fmt"])
    ctx.label("codec:" + c["fmt"] + ":" + c["codec"])
    ctx.nontrivial = not M.same(a, np.full(c["shape"], fill, dtype=dt))
    compare(c, root, a, fill, meta=not (c["fmt"] == "n5" and c["codec"] == "gzip"))


# only runs the probe of the known finding
LZ4 = dict(fmt="n5", shape=[6], chunks=[4], dtype="int32", codec="lz4", fill=0, w=dict(enc={}), data=dict(p="ramp", s=1), omit=0, attrs={})
FINDINGS = {"n5-lz4": ("n5-lz4", LZ4)}

SUBS = [Sub("n5-lz4", lambda: st.just(LZ4), conform, quick=0),
        Sub("conform", arrays, conform, quick=2000, batch=50),
        Sub("unsupported", unsupported, unsup, quick=1200, batch=50),
        Sub("zarr-python", lambda: lib_cases(["z2", "z3", "z3s"]), zarr_writer, quick=400, thorough=10000, batch=50),
        Sub("tensorstore", lambda: lib_cases(M.FMTS), ts_writer, quick=500, thorough=16000, batch=50)]

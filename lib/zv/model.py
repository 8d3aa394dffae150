"""Shared generators and helpers: dataset configurations, data patterns, numpy reference models."""
import os

import numpy as np
from hypothesis import strategies as st

DTYPES = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64"]
FMTS = ["n5", "z2", "z3", "z3s"]
CODECS = {
    "n5": ["raw", "gzip", "bzip2", "xz", "lz4", "blosc", "zstd"],
    "z2": ["raw", "blosc", "zlib", "gzip", "bzip2", "zstd"],
    "z3": ["raw", "blosc", "gzip", "zstd"],
    "z3s": ["raw", "blosc", "gzip", "zstd"],
}
BLOSC_CODECS = ["blosclz", "lz4", "lz4hc", "zlib", "zstd"]


def ext_of(fmt):
    return ".n5" if fmt == "n5" else ".zarr"


def codec_opts(draw, fmt, codec, explicit=None):
    """Options as the user passes them; often empty (defaults)."""
    if codec == "raw" or not draw(st.booleans()):
        return {}
    if codec in ("gzip", "zlib"):
        return {"level": draw(st.integers(0, 9))}
    if codec == "bzip2":
        return {"level": draw(st.integers(1, 9))}
    if codec == "xz":
        return {"level": draw(st.integers(0, 4))}
    if codec == "lz4":
        return {"level": draw(st.integers(1, 9))}
    if codec == "zstd":
        return {"level": draw(st.integers(1, 9))}
    o = {}
    lev = "level" if fmt in ("z3", "z3s") else "clevel"
    if draw(st.booleans()):
        o["codec"] = draw(st.sampled_from(BLOSC_CODECS))
    if draw(st.booleans()):
        o[lev] = draw(st.integers(0, 9))
    if draw(st.booleans()):
        o["shuffle"] = draw(st.integers(0, 2))
    if draw(st.booleans()):
        o["blocksize"] = draw(st.sampled_from([0, 16, 256, 4096]))
    return o


def fill_values(dtype):
    dt = np.dtype(dtype)
    if dt.kind == "f":
        return st.sampled_from([0, 0, 1, -1, 0.5, -2.25, 42, "nan", "inf", "-inf", 1e10])
    ii = np.iinfo(dt)
    lo, hi = max(ii.min, -(2 ** 53)), min(ii.max, 2 ** 53)
    return st.sampled_from([0, 0, 1, 42, max(lo, -1), lo, hi, hi // 3])


def fill_arg(v):
    return float(v) if isinstance(v, str) else v


MAXSIZE = {1: 40, 2: 17, 3: 9, 4: 6, 5: 5}


@st.composite
def shapes(draw, max_ndim=5, maxsize=None, min_ndim=1):
    nd = draw(st.sampled_from([d for d in (1, 2, 2, 3, 3, 4, 5) if min_ndim <= d <= max_ndim]))
    ms = (maxsize or MAXSIZE)[nd]
    return [draw(st.integers(1, ms)) for _ in range(nd)]


@st.composite
def configs(draw, fmts=FMTS, max_ndim=5, codecs=None, fills=True, threads=(1, 1, 2, 3, 8), dtypes=DTYPES, maxsize=None,
            opts=True):
    fmt = draw(st.sampled_from(fmts))
    shape = draw(shapes(max_ndim, maxsize))
    # chunks: usually smaller than the shape, sometimes larger (clipped by the library)
    chunks = [draw(st.integers(1, max(1, (s + 1) // 2))) if draw(st.integers(0, 3)) else draw(st.integers(1, s + 2))
              for s in shape]
    # bound the number of chunks so that a case stays small
    while np.prod([-(-s // c) for s, c in zip(shape, chunks)]) > 160:
        k = int(np.argmax([-(-s // c) for s, c in zip(shape, chunks)]))
        chunks[k] = min(shape[k], chunks[k] * 2)
    c = dict(fmt=fmt, shape=shape, chunks=chunks, dtype=draw(st.sampled_from(dtypes)))
    c["codec"] = draw(st.sampled_from([x for x in CODECS[fmt] if codecs is None or x in codecs]))
    c["copts"] = codec_opts(draw, fmt, c["codec"]) if opts else {}
    c["fill"] = draw(fill_values(c["dtype"])) if fills and fmt != "n5" else 0
    c["threads"] = draw(st.sampled_from(threads))
    if fmt == "z2":
        c["sep"] = draw(st.sampled_from([".", "/"]))
    if fmt in ("z3", "z3s"):
        c["enc"] = draw(st.sampled_from(["default", "default", "v2"]))
    if fmt == "z3s":
        c["shards"] = [min(ch, s) * draw(st.integers(1, 4)) for ch, s in zip(chunks, shape)]
    return c


def chunks_of(cfg):
    return [min(c, s) for c, s in zip(cfg["chunks"], cfg["shape"])]


def grid(cfg):
    return [-(-s // c) for s, c in zip(cfg["shape"], chunks_of(cfg))]


def chunk_slices(cfg, cid):
    return tuple(slice(i * c, min((i + 1) * c, s)) for i, c, s in zip(cid, chunks_of(cfg), cfg["shape"]))


def open_file(path, fmt, mode="a", sep=None):
    import z5py
    if fmt == "n5":
        return z5py.File(path, mode)
    return z5py.File(path, mode, use_zarr_format=True, dimension_separator=sep or ".",
                     zarr_format=3 if fmt in ("z3", "z3s") else 2)


def create_kwargs(cfg):
    kw = dict(shape=tuple(cfg["shape"]), chunks=tuple(cfg["chunks"]), dtype=cfg["dtype"], compression=cfg["codec"],
              fillvalue=fill_arg(cfg["fill"]), n_threads=cfg["threads"])
    kw.update(cfg["copts"])
    if cfg["fmt"] in ("z3", "z3s"):
        kw["chunk_key_encoding"] = cfg["enc"]
    if cfg["fmt"] == "z3s":
        kw["shards"] = tuple(cfg["shards"])
    return kw


def create(path, cfg, name="data"):
    f = open_file(path, cfg["fmt"], "a", cfg.get("sep"))
    return f, f.create_dataset(name, **create_kwargs(cfg))


def fill_of(cfg):
    dt = np.dtype(cfg["dtype"])
    return dt.type(fill_arg(cfg["fill"])) if cfg["fmt"] != "n5" else dt.type(0)


def model_of(cfg):
    return np.full(cfg["shape"], fill_of(cfg), dtype=cfg["dtype"])


PATTERNS = ["rand", "rand", "small", "const", "fill", "sparse", "ramp"]


def pattern():
    return st.fixed_dictionaries(dict(p=st.sampled_from(PATTERNS), s=st.integers(0, 10 ** 6)))


def make(pat, shape, dtype, fill=0):
    """Deterministic data for a pattern."""
    dt = np.dtype(dtype)
    n = int(np.prod(shape)) if len(shape) else 1
    rng = np.random.default_rng(pat["s"])
    p = pat["p"]
    if n == 0:
        return np.zeros(shape, dtype=dt)
    if p == "rand":
        raw = rng.integers(0, 256, size=n * dt.itemsize, dtype=np.uint8)
        a = raw.view(dt).copy()
        if dt.kind == "f":
            # signalling nans may be quieted by a float register on some machines
            a[np.isnan(a)] = np.nan
    elif p == "small":
        a = rng.integers(0, 5, size=n).astype(dt)
    elif p == "const":
        a = np.full(n, rng.integers(1, 100)).astype(dt)
    elif p == "fill":
        a = np.full(n, fill, dtype=dt)
    elif p == "sparse":
        a = np.full(n, fill, dtype=dt)
        k = rng.integers(0, n, size=max(1, n // 7))
        a[k] = rng.integers(1, 120, size=len(k)).astype(dt)
    else:
        a = (np.arange(n) % 251 + pat["s"] % 7).astype(dt)
    return a.reshape(shape)


def layout(a, kind):
    """The same values in another memory layout."""
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "strided":
        big = np.zeros([2 * s for s in a.shape], dtype=a.dtype)
        v = big[tuple(slice(0, 2 * s, 2) for s in a.shape)]
        v[...] = a
        return v
    if kind == "rev":
        return np.ascontiguousarray(a[::-1])[::-1]
    if kind == "T":
        return np.ascontiguousarray(a.T).T
    return np.ascontiguousarray(a)


LAYOUTS = ["C", "C", "F", "strided", "rev", "T"]


def same(a, b):
    """Bitwise equality, with zeros of either sign and all NaNs counting as equal."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind == "f":
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def diff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return "shape %s != expected %s" % (a.shape, b.shape)
    if a.dtype != b.dtype:
        return "dtype %s != expected %s" % (a.dtype, b.dtype)
    if a.dtype.kind == "f":
        m = ~((a == b) | (np.isnan(a) & np.isnan(b)))
    else:
        m = a != b
    idx = np.argwhere(m)
    if len(idx) == 0:
        return "equal"
    i = tuple(int(x) for x in idx[0])
    return "%d elements differ, first at %s: got %r, expected %r" % (len(idx), i, a[i], b[i])


def snapshot(root):
    """Every path below root with its content (None for directories)."""
    res = {}
    for d, dirs, files in os.walk(root):
        for x in dirs:
            p = os.path.join(d, x)
            res[os.path.relpath(p, root) + "/"] = os.readlink(p) if os.path.islink(p) else None
        for x in files:
            p = os.path.join(d, x)
            with open(p, "rb") as f:
                res[os.path.relpath(p, root)] = f.read()
    return res


def snapdiff(a, b):
    ks = [("-" + k) for k in a if k not in b] + [("+" + k) for k in b if k not in a] + \
         [("!" + k) for k in a if k in b and a[k] != b[k]]
    return ", ".join(sorted(ks)[:8])


@st.composite
def regions(draw, shape, full=0.2, nonempty=True):
    """[[start, stop], ...] within shape."""
    if draw(st.integers(0, 9)) < int(full * 10):
        return [[0, s] for s in shape]
    res = []
    for s in shape:
        a = draw(st.integers(0, s - 1))
        b = draw(st.integers(a + 1, s))
        res.append([a, b])
    return res


def sl(region):
    return tuple(slice(a, b) for a, b in region)


def rshape(region):
    return [b - a for a, b in region]


def partial_chunks(cfg, region):
    """Does the region cover some chunk only partially?"""
    for (a, b), c, s in zip(region, chunks_of(cfg), cfg["shape"]):
        if a % c or (b % c and b != s):
            return True
    return False


def scalars(dtype):
    dt = np.dtype(dtype)
    if dt.kind == "f":
        return st.sampled_from([0, 1, -1, 0.5, 3.25, "nan", "inf", 7])
    ii = np.iinfo(dt)
    return st.one_of(st.sampled_from([0, 1, int(ii.min), int(ii.max), 42]), st.integers(int(ii.min), int(ii.max)))


def scalar_arg(v, how, dtype):
    v = fill_arg(v)
    if how == "np":
        return np.dtype(dtype).type(v)
    if how == "float" and isinstance(v, int) and abs(v) < 2 ** 53:
        return float(v)
    if how == "bool" and v in (0, 1):
        return bool(v)
    return v


# --- attributes ---------------------------------------------------------------------------------

def json_scalars():
    return st.one_of(st.none(), st.booleans(), st.integers(-2 ** 63, 2 ** 64 - 1), st.integers(-5, 5),
                     st.floats(allow_nan=False, allow_infinity=False), st.text(max_size=8),
                     st.sampled_from(["", "a/b", "\u00e4\u4f60\U0001f600", "\\\"\n\t\x00", "NaN", "1"]))


def json_values():
    return st.recursive(json_scalars(), lambda k: st.one_of(st.lists(k, max_size=4), st.dictionaries(st.text(max_size=5), k, max_size=4)), max_leaves=8)


N5_RESERVED = ("dimensions", "blockSize", "dataType", "compression")
# keys of the other formats' metadata and near misses of the reserved ones are ordinary attributes
ATTR_KEYS = ["a", "b", "x", "shape", "dtype", "zarr_format", "Dimensions", "dimension", "blocksize", "n5x", "attributes", "\u00e4", "a b", "a/b", "", "node_type", "fill_value"]


def attr_keys():
    return st.one_of(st.sampled_from(ATTR_KEYS), st.sampled_from(["a", "b", "x"]), st.text(max_size=6).filter(lambda k: k not in N5_RESERVED + ("n5",)))


def same_json(a, b):
    """Equality of JSON values that does not take 1 for True or 1 for 1.0."""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_json(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_json(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


# --- writes shared by several checks ------------------------------------------------------------

@st.composite
def writes(draw, cfg, lo=1, hi=4):
    """A short list of writes, scalar writes and chunk removals."""
    res = []
    for _ in range(draw(st.integers(lo, hi))):
        k = draw(st.sampled_from(["w", "w", "w", "s", "rm"]))
        if k == "w":
            res.append(dict(op="w", r=draw(regions(cfg["shape"])), d=draw(pattern())))
        elif k == "s":
            res.append(dict(op="s", r=draw(regions(cfg["shape"])), v=draw(st.one_of(st.just("FILL"), scalars(cfg["dtype"])))))
        else:
            res.append(dict(op="rm", c=[draw(st.integers(0, n - 1)) for n in grid(cfg)]))
    return res


def apply_writes(ds, ref, cfg, ops):
    fill = fill_of(cfg)
    for o in ops:
        if o["op"] == "w":
            a = make(o["d"], rshape(o["r"]), cfg["dtype"], fill)
            ds[sl(o["r"])] = a
            ref[sl(o["r"])] = a
        elif o["op"] == "s":
            v = scalar_arg(cfg["fill"] if o["v"] == "FILL" else o["v"], "np", cfg["dtype"])
            ds[sl(o["r"])] = v
            ref[sl(o["r"])] = v
        else:
            ds._impl.remove_chunk(o["c"])
            ref[chunk_slices(cfg, o["c"])] = fill
    return ref

"""P17: empty chunks are never stored, and fill values are exact."""
import math
import os

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv import spec
from zv.core import CppSub, Sub, check

TECHNIQUE = "stateful model-based property testing of write histories biased to fill values; the stored chunks are listed by an independent reader of the formats"
RULE = ("history: a dataset configuration (all formats, dtypes, codecs, threads) with a fill value drawn from everything the dtype represents (extremes, denormals, nan, infinities, negative and fractional values; not for n5, "
        "whose format has none), and 2-12 region, scalar and chunk writes, removals and re-opens whose data are mostly fill values. After each operation chunk_exists of every chunk is compared with the model; at checkpoints the files "
        "(shard slots) are listed by the independent reader, shard files must not be longer than their chunks, and absent chunks are read through every read function. Non-trivial: a stored chunk became empty again, or some chunk stayed absent next to a stored one. "
        "views: the same for the C++ API with strided views (complex types included).")
ASSUMPTIONS = ["zeros of either sign are the same fill value, and so are all NaNs",
               "int64 and uint64 fill values beyond 2^53 (other than the extremes) are rounded: recorded as a known finding",
               "chunks whose padding outside of the array was written with other values are left out (P14 covers them)"]


def fills(dtype):
    dt = np.dtype(dtype)
    if dt.kind == "f":
        fi = np.finfo(dt)
        return st.one_of(st.sampled_from([0, 0, 1, -1, 0.5, "nan", "inf", "-inf", float(fi.max), float(fi.min), float(fi.tiny), float(fi.smallest_subnormal), -0.0]),
                         st.floats(width=8 * dt.itemsize, allow_nan=False))
    ii = np.iinfo(dt)
    lo, hi = max(ii.min, -2 ** 53), min(ii.max, 2 ** 53)
    return st.one_of(st.sampled_from([0, 0, 1, int(ii.min), int(ii.max), hi, lo, max(lo, -1), hi - 1]), st.integers(int(lo), int(hi)))


@st.composite
def cases(draw):
    cfg = draw(M.configs(fmts=["n5", "z2", "z3", "z3s", "z3s"]))
    n5fill = None
    if cfg["fmt"] != "n5":
        cfg["fill"] = draw(fills(cfg["dtype"]))
        if isinstance(cfg["fill"], float) and not math.isfinite(cfg["fill"]):
            cfg["fill"] = str(cfg["fill"])
    elif draw(st.integers(0, 4)) == 0:
        n5fill = draw(st.integers(1, 100))
    g = M.grid(cfg)
    ops = []
    for _ in range(draw(st.integers(2, 12))):
        k = draw(st.sampled_from(["write", "write", "chunk", "scalar", "cover", "cover", "remove", "reopen", "swap"]))
        o = dict(op=k, v=draw(st.sampled_from(["fill", "fill", "fill", "one", "rand", "near", "zero"])), s=draw(st.integers(0, 10 ** 6)),
                 check=draw(st.integers(0, 2)) == 0)
        if k in ("write", "scalar"):
            o["r"] = draw(M.regions(cfg["shape"]))
        elif k == "cover":
            # whole chunks
            lo = [draw(st.integers(0, n - 1)) for n in g]
            hi = [draw(st.integers(a, n - 1)) for a, n in zip(lo, g)]
            o["r"] = [[a * c, min((b + 1) * c, s)] for a, b, c, s in zip(lo, hi, M.chunks_of(cfg), cfg["shape"])]
        elif k in ("chunk", "remove"):
            o["c"] = [draw(st.integers(0, n - 1)) for n in g]
        ops.append(o)
    return dict(cfg=cfg, ops=ops, n5fill=n5fill)


def near(fill, dt):
    """A value close to the fill value that is not it."""
    if dt.kind == "f":
        if fill != fill or np.isinf(fill):
            return dt.type(0)
        return np.nextafter(fill, dt.type(1e30), dtype=dt) if fill < 1e30 else dt.type(0)
    ii = np.iinfo(dt)
    return dt.type(int(fill) + 1) if int(fill) < ii.max else dt.type(int(fill) - 1)


def data(o, shape, dt, fill):
    rng = np.random.default_rng(o["s"])
    a = np.full(shape, fill, dtype=dt)
    v = o["v"]
    if v == "one" or v == "near":
        a.reshape(-1)[rng.integers(0, a.size)] = near(fill, dt)
    elif v == "rand":
        a = M.make(dict(p="rand", s=o["s"]), shape, dt, fill)
    elif v == "zero":
        a = np.zeros(shape, dtype=dt)
    return a


def isfill(a, fill):
    return bool(((a == fill) | ((a != a) & (fill != fill))).all())


def run(case, ctx):
    cfg = case["cfg"]
    dt = np.dtype(cfg["dtype"])
    root = ctx.path(M.ext_of(cfg["fmt"]))
    f = M.open_file(root, cfg["fmt"], "a", cfg.get("sep"))
    kw = M.create_kwargs(cfg)
    if case["n5fill"] is not None:
        kw["fillvalue"] = case["n5fill"]
        ctx.label("n5 with a fill value")
    ds = f.create_dataset("data", **kw)
    fill = M.fill_of(cfg)
    ref = M.model_of(cfg)
    ids = [tuple(int(x) for x in i) for i in np.ndindex(*M.grid(cfg))]
    cs = M.chunks_of(cfg)
    path = os.path.join(root, "data")
    was, emptied, mixed = set(), False, False
    spare = None

    def look(what, full):
        nonlocal was, emptied, mixed
        want = {c for c in ids if not isfill(ref[M.chunk_slices(cfg, c)], fill)}
        for c in ids:
            check(ds.chunk_exists(c) == (c in want), "%s: chunk %s %s", what, c, "is missing" if c in want else "exists, but only holds the fill value %r" % fill)
        emptied |= bool(was - want)
        mixed |= bool(want) and len(want) < len(ids)
        was = want
        if not full:
            return
        a = spec.read(path, bare_lz4=True)
        check(set(a.stored) == want, "%s: stored chunks: unexpected %s, missing %s", what, sorted(set(a.stored) - want)[:4], sorted(want - set(a.stored))[:4])
        if cfg["fmt"] == "z3s":
            for sid, s in a.shard_files.items():
                check(s["size"] == s["used"] + s["index"], "%s: shard %s has %d bytes for %d bytes of chunks", what, sid, s["size"], s["used"])
        got = ds[...]
        check(M.same(got, ref), "%s: %s", what, M.diff(got, ref))
        for c in ids:
            if c in want:
                continue
            s = M.chunk_slices(cfg, c)
            w = np.full([x.stop - x.start for x in s], fill, dtype=dt)
            check(ds.read_chunk(c) is None, "%s: the absent chunk %s gives data", what, c)
            got = ds.read_subarray([x.start for x in s], [x.stop for x in s])
            check(M.same(got, w), "%s: absent chunk %s: %s", what, c, M.diff(got, w))
            out = np.full(cfg["shape"], 7, dtype=dt)
            ds.read_direct(out, s, s)
            check(M.same(out[s], w), "%s: absent chunk %s through read_direct: %s", what, c, M.diff(out[s], w))
            break

    look("new dataset", True)
    for i, o in enumerate(case["ops"]):
        k = o["op"]
        what = "op %d %s %s" % (i, k, o.get("c") or o.get("r"))
        if k in ("write", "cover"):
            a = data(o, M.rshape(o["r"]), dt, fill)
            ds[M.sl(o["r"])] = a
            ref[M.sl(o["r"])] = a
        elif k == "scalar":
            v = {"fill": fill, "zero": dt.type(0)}.get(o["v"], near(fill, dt))
            ds[M.sl(o["r"])] = v
            ref[M.sl(o["r"])] = v
        elif k == "chunk":
            s = M.chunk_slices(cfg, o["c"])
            valid = tuple(x.stop - x.start for x in s)
            a = data(o, valid, dt, fill)
            full = a
            if cfg["fmt"] != "n5":
                full = np.full(cs, fill, dtype=dt)
                full[tuple(slice(0, n) for n in valid)] = a
            ds.write_chunk(o["c"], full)
            ref[s] = a
        elif k == "remove":
            ds._impl.remove_chunk(o["c"])
            ref[M.chunk_slices(cfg, o["c"])] = fill
        elif k == "swap" and spare is not None:
            # a handle that was opened earlier is used on
            ds, spare = spare, ds
            ctx.label("second-handle")
        else:
            spare, ds = ds, M.open_file(root, cfg["fmt"], "a")["data"]
            ds.n_threads = cfg["threads"]
        look(what, o["check"] or i + 1 == len(case["ops"]))
    ctx.label("fmt:" + cfg["fmt"])
    ctx.label("fill:" + (str(fill) if fill != fill or abs(float(fill)) in (0, 1, float("inf")) else "other"))
    ctx.label("emptied", emptied)
    ctx.label("edge", any(s % c for s, c in zip(cfg["shape"], cs)))
    ctx.nontrivial = emptied or mixed


def large_fill(case, ctx):
    """Known finding: integers beyond 2^53 as fill values."""
    import z5py
    f = z5py.File(ctx.path(".zarr"), "a", use_zarr_format=True)
    for n, (dtype, v) in enumerate([("int64", 2 ** 53 + 1), ("uint64", 2 ** 60 + 1)]):
        try:
            ds = f.create_dataset("d%d" % n, shape=(4,), chunks=(2,), dtype=dtype, fillvalue=v)
        except Exception:
            continue
        check(int(ds[0]) == v, "fill value %d reads as %d", v, int(ds[0]))


SUBS = [Sub("history", cases, run, quick=1600, batch=50),
        CppSub("views", "ds_views", "history", quick=1500, san="asan"),
        Sub("large-fill", lambda: st.just({}), large_fill, quick=0)]
FINDINGS = {"large-fill": ("large-fill", {})}

"""P14: chunk-level access agrees with region access, including varlen chunks."""
import os
import struct

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv import spec
from zv.core import CppSub, Sub, check

RULE = ("A case is a dataset configuration (all formats, dtypes, codecs, 1-5 dims) and a history of 4-16 chunk writes, region and scalar writes, varlen writes (n5; 0 to 4 chunk sizes long, any shape), "
        "removals, re-opens and refused writes, replayed on a model that knows for every chunk of the grid whether it exists and what it holds. After each operation a generated set of chunks (at the "
        "end all) is read through read_chunk, chunk_exists, get_chunk_shape (with and without header) and region reads; varlen chunks are also decoded by an independent reader. Non-trivial: chunk and "
        "region writes mix, and an edge chunk or varlen chunk is involved. long: n5 chunks with an extent or length of 2^32 and more, which the header cannot express: refused without effect (always non-trivial). chunks: the same model for "
        "the C++ interface: exactly sized buffers, raw bytes against files and decompress(), varlen probes, shapes from headers, the shard interface (slots, offsets, re-written shards).")
TECHNIQUE = "stateful model-based property testing: a per-chunk model, chunk reads against region reads, an independent decoder for varlen chunks"
ASSUMPTIONS = ["positions outside of the grid are reported as absent; a varlen chunk of length 0 is absent", "region requests that need the old content of a varlen chunk are refused",
               "the part of a zarr edge chunk outside of the array is only compared where it was written through write_chunk as such or left to z5"]

OPS = ["chunk"] * 4 + ["write"] * 3 + ["scalar", "varlen", "varlen", "remove", "remove", "reopen", "swap", "bad", "fillchunk"]
BADW = ["size", "dtype", "smaller", "varlen-zarr", "outside", "ndim"]


@st.composite
def cases(draw):
    fmts = draw(st.sampled_from([["n5"], ["z2"], ["z3"], ["z3s"], ["n5"]]))
    cfg = draw(M.configs(fmts=fmts))
    g = M.grid(cfg)
    ops = []
    for _ in range(draw(st.integers(4, 16))):
        k = draw(st.sampled_from(OPS))
        edge = draw(st.booleans())
        o = dict(op=k, c=[n - 1 if edge and draw(st.booleans()) else draw(st.integers(0, n - 1)) for n in g], d=draw(M.pattern()))
        if k == "chunk":
            o["pad"] = draw(st.sampled_from(["fill", "fill", "other"]))
            o["lay"] = draw(st.sampled_from(["C", "F", "flat", "strided"]))
        elif k == "write":
            o["r"] = draw(M.regions(cfg["shape"]))
        elif k == "scalar":
            o["r"] = draw(M.regions(cfg["shape"]))
            o["v"] = draw(st.one_of(st.just("FILL"), M.scalars(cfg["dtype"])))
        elif k == "varlen":
            n = int(np.prod(M.chunks_of(cfg)))
            o["n"] = draw(st.one_of(st.integers(0, 4 * n + 3), st.sampled_from([0, 1, n, n - 1, n + 1])))
            o["nd"] = draw(st.booleans())
        elif k == "bad":
            o["b"] = draw(st.sampled_from(BADW))
        ops.append(o)
    return dict(cfg=cfg, ops=ops, probes=draw(st.integers(0, 10 ** 6)))


def run(case, ctx):
    cfg = case["cfg"]
    dt = np.dtype(cfg["dtype"])
    n5 = cfg["fmt"] == "n5"
    root = ctx.path(M.ext_of(cfg["fmt"]))
    f, ds = M.create(root, cfg)
    fill = M.fill_of(cfg)
    ref = M.model_of(cfg)
    g = M.grid(cfg)
    cs = tuple(M.chunks_of(cfg))
    all_ids = [tuple(int(x) for x in i) for i in np.ndindex(*g)]
    spare = None
    live = {i: False for i in all_ids}    # False / True / None (unknown: only foreign padding)
    varlen = {}
    foreign = {}                          # full padded content of chunks written with other values in the padding
    rng = np.random.default_rng(case["probes"])
    kinds, edge_hit = set(), False

    def isfill(a):
        return bool(((a == fill) | ((a != a) & (fill != fill))).all())

    def path_of(c):
        return "/".join([root, "data"] + [str(x) for x in reversed(c)])

    def probe(c, what):
        s = M.chunk_slices(cfg, c)
        valid = tuple(x.stop - x.start for x in s)
        ex = ds.chunk_exists(c)
        got = ds.read_chunk(c)
        check(ex == (got is not None), "%s: chunk %s exists %s, but reading it gives %s", what, c, ex, got if got is None else "data")
        check(tuple(ds.get_chunk_shape(c)) == valid, "%s: shape of chunk %s is %s", what, c, ds.get_chunk_shape(c))
        if c in varlen:
            check(ex, "%s: varlen chunk %s does not exist", what, c)
            check(M.same(got, varlen[c]), "%s: varlen chunk %s: %s", what, c, M.diff(got, varlen[c]))
            for fn in (lambda: ds[s],):
                try:
                    fn()
                except RuntimeError:
                    pass
                else:
                    check(False, "%s: a region read of the varlen chunk %s was not refused", what, c)
            buf = open(path_of(c), "rb").read()
            nd = len(g)
            mode, ndim = struct.unpack(">HH", buf[:4])
            check((mode, ndim) == (1, nd), "%s: header of varlen chunk %s says mode %d, %d dims", what, c, mode, ndim)
            dims = struct.unpack(">%dI" % nd, buf[4:4 + 4 * nd])
            num, = struct.unpack(">I", buf[4 + 4 * nd:8 + 4 * nd])
            check(num == len(varlen[c]), "%s: header of varlen chunk %s says %d elements", what, c, num)
            check(tuple(dims) == tuple(reversed(valid)), "%s: header of varlen chunk %s says shape %s", what, c, dims)
            if cfg["codec"] != "lz4":
                raw = spec.decode(cfg["codec"], buf[8 + 4 * nd:], num * dt.itemsize)
                check(M.same(np.frombuffer(raw, dtype=dt.newbyteorder(">")).astype(dt), varlen[c]), "%s: stored varlen chunk %s", what, c)
            return
        if live[c] is not None:
            check(ex == live[c], "%s: chunk %s exists: %s, expected %s", what, c, ex, live[c])
        region = ds[s]
        check(M.same(region, ref[s]), "%s: region of chunk %s: %s", what, c, M.diff(region, ref[s]))
        if got is not None:
            check(got.shape == (valid if n5 else cs) and got.dtype == dt, "%s: chunk %s is %s %s", what, c, got.shape, got.dtype)
            inner = got[tuple(slice(0, n) for n in valid)]
            check(M.same(inner, ref[s]), "%s: chunk %s: %s", what, c, M.diff(inner, ref[s]))
            if c in foreign:
                if foreign[c] is not None:
                    check(M.same(got, foreign[c]), "%s: chunk %s with its padding: %s", what, c, M.diff(got, foreign[c]))
            elif not n5:
                pad = np.full(cs, fill, dtype=dt)
                pad[tuple(slice(0, n) for n in valid)] = inner
                check(M.same(got, pad), "%s: padding of chunk %s: %s", what, c, M.diff(got, pad))
            if n5:
                check(tuple(ds.get_chunk_shape(c, True)) == valid, "%s: shape of chunk %s from its header: %s", what, c, ds.get_chunk_shape(c, True))
            ctx.label("edge-read", valid != cs)
        else:
            check(isfill(ref[s]), "%s: chunk %s is absent", what, c)
            if not n5:
                check(tuple(ds.get_chunk_shape(c, True)) == valid, "%s: shape of absent chunk", what)

    def touched(region, value_of):
        """Update the model after a region write."""
        for c in all_ids:
            s = M.chunk_slices(cfg, c)
            inter = [(max(a, x.start), min(b, x.stop)) for (a, b), x in zip(region, s)]
            if any(a >= b for a, b in inter):
                continue
            varlen.pop(c, None)
            if c in foreign:
                # other padding may stay or go
                foreign[c] = None
                live[c] = True if not isfill(ref[s]) else None
            else:
                live[c] = not isfill(ref[s])

    for i, o in enumerate(case["ops"]):
        k = o["op"]
        c = tuple(o["c"])
        s = M.chunk_slices(cfg, c)
        valid = tuple(x.stop - x.start for x in s)
        what = "op %d %s %s" % (i, k, c if k in ("chunk", "varlen", "remove", "bad", "fillchunk") else o.get("r"))
        if k in ("chunk", "fillchunk"):
            a = M.make(o["d"], valid, dt, fill)
            if k == "fillchunk":
                a = np.full(valid, fill, dtype=dt)
            full = a
            foreign.pop(c, None)
            if not n5:
                full = np.full(cs, fill, dtype=dt)
                if o.get("pad") == "other" and valid != cs:
                    full = M.make(dict(p="small", s=o["d"]["s"]), cs, dt, fill)
                full[tuple(slice(0, n) for n in valid)] = a
            arr = full
            if o.get("lay") in ("F", "strided"):
                arr = M.layout(full, o["lay"])
            elif o.get("lay") == "flat":
                arr = full.reshape(-1)
            try:
                ds.write_chunk(c, arr)
            except TypeError:
                # arrays that are not C-contiguous may be refused, like in the documented signature
                check(not arr.flags.c_contiguous, "%s raised a TypeError", what)
                ds.write_chunk(c, np.ascontiguousarray(arr))
            ref[s] = a
            varlen.pop(c, None)
            live[c] = not isfill(full)
            if o.get("pad") == "other" and valid != cs and not n5:
                pad = np.full(cs, fill, dtype=dt)
                pad[tuple(slice(0, n) for n in valid)] = a
                if not M.same(full, pad):
                    foreign[c] = full
                    ctx.label("foreign-padding")
            kinds.add("chunk")
            edge_hit |= valid != cs
            if k == "fillchunk":
                check(not ds.chunk_exists(c), "%s: a chunk of fill values exists", what)
        elif k in ("write", "scalar"):
            region = o["r"]
            part = [v for v in varlen if any(True for _ in [0]) and all(max(a, x.start) < min(b, x.stop) for (a, b), x in zip(region, M.chunk_slices(cfg, v)))
                    and not all(a <= x.start and b >= x.stop for (a, b), x in zip(region, M.chunk_slices(cfg, v)))]
            if part:
                # only the part inside of that chunk, so that nothing else is touched
                v = part[0]
                region = [[max(a, x.start), min(b, x.stop)] for (a, b), x in zip(region, M.chunk_slices(cfg, v))]
                try:
                    ds[M.sl(region)] = 1
                except RuntimeError:
                    pass
                else:
                    check(False, "%s: a partial write to the varlen chunk %s was not refused", what, v)
                probe(v, what)
                ctx.label("varlen-partial-refused")
                continue
            if k == "write":
                a = M.make(o["d"], M.rshape(region), dt, fill)
                ds[M.sl(region)] = a
                ref[M.sl(region)] = a
            else:
                val = M.scalar_arg(cfg["fill"] if o["v"] == "FILL" else o["v"], "np", dt)
                ds[M.sl(region)] = val
                ref[M.sl(region)] = val
            touched(region, None)
            kinds.add("region")
        elif k == "varlen":
            if not n5:
                before = M.snapshot(root)
                try:
                    ds.write_chunk(c, np.ones(3, dtype=dt), True)
                except RuntimeError:
                    pass
                else:
                    check(False, "%s: accepted for zarr", what)
                check(not M.snapdiff(before, M.snapshot(root)), "%s changed files", what)
                continue
            a = M.make(o["d"], (o["n"],), dt, fill)
            arr = a.reshape(-1, 1, o["n"]) if o["nd"] and o["n"] else a
            ds.write_chunk(c, arr, True)
            ref[s] = fill
            varlen.pop(c, None)
            live[c] = o["n"] > 0
            if o["n"]:
                varlen[c] = a
            kinds.add("varlen")
            ctx.label("varlen")
            ctx.label("varlen-long", o["n"] > int(np.prod(valid)))
        elif k == "remove":
            ds._impl.remove_chunk(c)
            ref[s] = fill
            varlen.pop(c, None)
            foreign.pop(c, None)
            live[c] = False
        elif k == "swap" and spare is not None:
            # a handle that was opened earlier is used on
            ds, spare = spare, ds
            ctx.label("second-handle")
        elif k in ("reopen", "swap"):
            f = M.open_file(root, cfg["fmt"], "a", cfg.get("sep"))
            spare, ds = ds, f["data"]
            ds.n_threads = cfg["threads"]
        else:
            b = o["b"]
            before = M.snapshot(root)
            want = valid if n5 else cs
            n = int(np.prod(want))
            a, cid = np.ones(want, dtype=dt), c
            vl = False
            if b == "size":
                a = np.ones(n + 1 + o["d"]["s"] % 5, dtype=dt)
            elif b == "smaller":
                if n == 1:
                    continue
                a = np.ones(n - 1, dtype=dt)
            elif b == "dtype":
                a = np.ones(want, dtype="float32" if dt != np.float32 else "int32")
            elif b == "varlen-zarr":
                if n5:
                    cid, vl = tuple(g), True
                else:
                    vl = True
            elif b == "outside":
                cid = tuple(x + (y if j == i % len(c) else 0) for j, (x, y) in enumerate(zip(c, g)))
            else:
                cid = c + (0,) if i % 2 or len(c) == 1 else c[:-1]
            try:
                ds.write_chunk(cid, a, vl)
            except Exception as e:
                check(isinstance(e, (RuntimeError, TypeError, ValueError, IndexError)), "%s/%s raised %r", what, b, e)
            else:
                check(False, "%s: write_chunk(%s) with %s %s%s was accepted", what, cid, a.shape, a.dtype, " varlen" if vl else "")
            check(not M.snapdiff(before, M.snapshot(root)), "%s/%s changed %s", what, b, M.snapdiff(before, M.snapshot(root)))
            if b == "outside":
                check(not ds.chunk_exists(cid), "%s: a chunk outside of the grid exists", what)
                try:
                    check(ds.read_chunk(cid) is None, "%s: a chunk outside of the grid was read", what)
                except RuntimeError:
                    pass
                try:
                    x = ds.get_chunk_shape(cid)
                except Exception:
                    pass
                else:
                    check(False, "%s: the shape of a chunk outside of the grid is %s", what, x)
            ctx.label("bad:" + b)
        todo = {c}
        for _ in range(2):
            todo.add(all_ids[int(rng.integers(len(all_ids)))])
        for x in sorted(todo):
            probe(x, what)
    ds = M.open_file(root, cfg["fmt"], "r")["data"]
    for x in all_ids:
        probe(x, "at the end")
    check(tuple(ds.chunks_per_dimension) == tuple(g) and ds.number_of_chunks == len(all_ids), "chunk counts")
    ctx.nontrivial = len(kinds) > 1 and (edge_hit or "varlen" in kinds)


@st.composite
def long_cases(draw):
    return dict(n=2 ** 32 + draw(st.integers(0, 5)), varlen=draw(st.booleans()), axis=draw(st.integers(0, 1)), s=draw(st.integers(1, 255)))


def run_long(case, ctx):
    import z5py
    # the chunk header of n5 has 32 bit for each size: a larger chunk cannot be stored, and must not seem to be
    root = ctx.path("n5")
    f = z5py.File(root, "a")
    n = case["n"]
    x = np.zeros(n, "uint8")
    x[0] = case["s"]
    if case["varlen"]:
        ds = f.create_dataset("data", shape=(8, 8), chunks=(4, 4), dtype="uint8", compression="raw")
    else:
        shape = (n, 1) if case["axis"] else (1, n)
        ds = f.create_dataset("data", shape=shape, chunks=shape, dtype="uint8", compression="raw")
        x = x.reshape(shape)
    if case["varlen"]:
        ds.write_chunk((0, 0), np.ones(4, "uint8"), varlen=True)
    before = M.snapshot(root)
    ctx.nontrivial = True
    ctx.label("varlen" if case["varlen"] else "chunk")
    try:
        ds.write_chunk((0, 0), x, varlen=case["varlen"])
    except (RuntimeError, MemoryError):
        check(M.snapshot(root) == before, "the refused chunk changed the container")
        return
    h = open(os.path.join(root, "data", "0", "0"), "rb").read(16)
    size = struct.unpack(">I", h[12:16])[0] if case["varlen"] else int(np.prod(struct.unpack(">II", h[4:12]), dtype=object))
    check(size == n, "a chunk with %d elements was stored with a header for %d", n, size)


SUBS = [Sub("history", cases, run, quick=3000, batch=50),
        Sub("long", long_cases, run_long, quick=32, batch=8, workers=2),
        CppSub("chunks", "p14_chunks", "chunks", quick=1500)]

"""P05: shard files always hold exactly the live inner chunks."""
import os
import struct

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv import spec
from zv.core import Sub, check

RULE = ("A case is a sharded dataset (dtype, 1-4 dims, inner chunk and shard shape, codec, fill value, key layout), possibly started from shards of another writer (other order of the "
        "chunks, gaps), and a history of 3-10 region writes, scalar writes, chunk writes, chunk removals and re-opens with 1-8 threads; after every operation each shard file is parsed "
        "byte by byte and compared with the model. Non-trivial: some operation updates a shard that holds other live chunks. In the corrupt sub-check an index is damaged first; "
        "non-trivial: the damaged shard holds at least one live chunk.")
TECHNIQUE = "stateful property-based testing: after every operation of a generated history the shard files are parsed by an independent reader and compared with a model of the live chunks"
ASSUMPTIONS = ["one process and one dataset object write at a time (P12 covers threads)",
               "a shard whose index lists overlapping chunks under a valid checksum is not judged"]


@st.composite
def sharded(draw):
    cfg = draw(M.configs(fmts=["z3s"], max_ndim=4))
    if int(np.prod([s // c for s, c in zip(cfg["shards"], M.chunks_of(cfg))])) == 1 and draw(st.integers(0, 3)):
        cfg["shards"] = [2 * c for c in M.chunks_of(cfg)]
    return cfg


@st.composite
def histories(draw):
    cfg = draw(sharded())
    g = M.grid(cfg)
    ops = []
    cps = [s // c for s, c in zip(cfg["shards"], M.chunks_of(cfg))]
    for _ in range(draw(st.integers(3, 10))):
        k = draw(st.sampled_from(["w", "w", "s", "chunk", "chunk", "rm", "rm", "shard", "reopen", "swap"]))
        cid = [draw(st.integers(0, n - 1)) for n in g]
        if k == "w":
            ops.append(dict(op=k, r=draw(M.regions(cfg["shape"])), d=draw(M.pattern())))
        elif k == "s":
            ops.append(dict(op=k, r=draw(M.regions(cfg["shape"])), v=draw(st.one_of(st.just("FILL"), st.just("FILL"), M.scalars(cfg["dtype"])))))
        elif k == "chunk":
            ops.append(dict(op=k, c=cid, d=draw(M.pattern())))
        elif k == "rm":
            ops.append(dict(op=k, c=cid))
        elif k == "shard":
            # exactly one shard, written or emptied
            sid = [c // n for c, n in zip(cid, cps)]
            r = [[i * s, min((i + 1) * s, x)] for i, s, x in zip(sid, cfg["shards"], cfg["shape"])]
            ops.append(dict(op="s", r=r, v="FILL") if draw(st.booleans()) else dict(op="w", r=r, d=draw(M.pattern())))
        else:
            ops.append(dict(op=k, t=draw(st.sampled_from([1, 2, 4, 8]))))
    start = None
    if draw(st.integers(0, 2)) == 0:
        start = dict(d=draw(M.pattern()), order_seed=draw(st.integers(0, 99)), gaps=draw(st.booleans()), omit=draw(st.sampled_from([0, 0.4])))
    return dict(cfg=cfg, ops=ops, start=start)


def live_chunks(cfg, ref):
    fill = M.fill_of(cfg)
    res = set()
    for cid in spec.grid(cfg["shape"], M.chunks_of(cfg)):
        part = ref[M.chunk_slices(cfg, cid)]
        if not M.same(part, np.full(part.shape, fill, dtype=part.dtype)):
            res.add(tuple(cid))
    return res


def touched(cfg, o):
    if o["op"] in ("chunk", "rm"):
        return {tuple(o["c"])}
    ch = M.chunks_of(cfg)
    import itertools
    return set(itertools.product(*[range(a // c, -(-b // c)) for (a, b), c in zip(o["r"], ch)]))


def run(case, ctx):
    cfg = case["cfg"]
    root = ctx.path(".zarr")
    ref = M.model_of(cfg)
    fill = M.fill_of(cfg)
    foreign = set()
    path = root + "/data"
    if case["start"]:
        s = case["start"]
        f = M.open_file(root, "z3", "a")
        a = M.make(s["d"], cfg["shape"], cfg["dtype"], fill)
        rng = np.random.default_rng(s["order_seed"])
        omit = set(c for c in spec.grid(cfg["shape"], M.chunks_of(cfg)) if rng.random() < s["omit"])
        for c in omit:
            a[M.chunk_slices(cfg, c)] = fill
        enc = {}
        if cfg["codec"] == "blosc":
            enc = dict(cname="lz4", shuffle=1)
        spec.write_z3(path, a, M.chunks_of(cfg), cfg["codec"], fill, dict(enc=enc, encoding=cfg["enc"], order_seed=s["order_seed"], gaps=s["gaps"]), cfg["shards"], omit)
        ds = f["data"]
        ref = a
        # another writer may store chunks that hold nothing but fill values
        foreign = set(spec.read(path).stored) - live_chunks(cfg, ref)
        ctx.label("foreign-start")
    else:
        f, ds = M.create(root, cfg)
    ds.n_threads = cfg["threads"]
    before = spec.read(path)
    sid_of = lambda c: tuple(i * k // s for i, k, s in zip(c, M.chunks_of(cfg), cfg["shards"]))
    dirty = set()
    spare = None
    for i, o in enumerate(case["ops"]):
        if o["op"] == "swap" and spare is not None:
            # a handle that was opened earlier is used on
            ds, spare = spare, ds
            ctx.label("second-handle")
            continue
        if o["op"] in ("reopen", "swap"):
            spare, ds = ds, M.open_file(root, "z3", "r+")["data"]
            ds.n_threads = o["t"]
            continue
        t = touched(cfg, o)
        if o["op"] == "w":
            a = M.make(o["d"], M.rshape(o["r"]), cfg["dtype"], fill)
            ds[M.sl(o["r"])] = a
            ref[M.sl(o["r"])] = a
        elif o["op"] == "s":
            v = M.scalar_arg(cfg["fill"] if o["v"] == "FILL" else o["v"], "np", cfg["dtype"])
            ds[M.sl(o["r"])] = v
            ref[M.sl(o["r"])] = v
        elif o["op"] == "chunk":
            full = np.full(M.chunks_of(cfg), fill, dtype=cfg["dtype"])
            s = M.chunk_slices(cfg, o["c"])
            valid = tuple(x.stop - x.start for x in s)
            a = M.make(o["d"], valid, cfg["dtype"], fill)
            full[tuple(slice(0, n) for n in valid)] = a
            ds.write_chunk(tuple(o["c"]), full)
            ref[s] = a
        else:
            ds._impl.remove_chunk(list(o["c"]))
            ref[M.chunk_slices(cfg, o["c"])] = fill
        foreign -= t
        after = spec.read(path)      # strict: index checksum, bounds, overlap, stray chunks and files
        live = live_chunks(cfg, ref)
        have = set(after.stored)
        check(have - foreign == live - foreign, "op %d %s: live chunks are %s, stored are %s", i, o["op"], sorted(live), sorted(have))
        check(foreign <= have, "op %d %s: chunks %s of the other writer are gone", i, o["op"], sorted(foreign - have))
        check(M.same(after.data, ref), "op %d %s: %s", i, o["op"], M.diff(after.data, ref))
        for c in before.raw:
            if c not in t:
                check(after.raw.get(c) == before.raw[c], "op %d %s: the untouched chunk %s was changed", i, o["op"], c)
        touched_shards = set(sid_of(c) for c in t)
        dirty |= touched_shards
        for sid, x in after.shard_files.items():
            if sid in dirty:
                check(x["size"] == x["used"] + x["index"], "op %d %s: shard %s has %d bytes for %d bytes of chunks", i, o["op"], sid, x["size"], x["used"])
        got = ds[...]
        check(M.same(got, ref), "op %d %s, read: %s", i, o["op"], M.diff(got, ref))
        if any(sid_of(c) in touched_shards and c not in t for c in before.raw):
            ctx.nontrivial = True
            ctx.label("update-beside-live-chunks")
        ctx.label("shard-vanishes", bool(set(before.shard_files) - set(after.shard_files)))
        before = after
    ctx.label("codec:" + cfg["codec"])
    ctx.label("enc:" + cfg["enc"])


@st.composite
def corrupt_cases(draw):
    cfg = draw(sharded())
    cps = [s // c for s, c in zip(cfg["shards"], M.chunks_of(cfg))]
    return dict(cfg=cfg, d=draw(M.pattern()), how=draw(st.sampled_from(["flip", "flip", "flip", "truncate", "empty", "bounds", "bounds", "overflow", "shift"])), at=draw(st.integers(0, 10 ** 6)),
                bit=draw(st.integers(0, 7)), upd=draw(st.sampled_from(["w", "s", "chunk", "rm", "fillchunk"])), cell=draw(st.integers(0, 10 ** 6)), t=draw(st.sampled_from([1, 1, 2, 4])), reopen=draw(st.booleans()))


def damage(buf, ns, how, at, bit):
    ilen = 16 * ns + 4
    body = len(buf) - ilen
    if how == "flip":
        p = body + at % ilen
        return buf[:p] + bytes([buf[p] ^ (1 << bit)]) + buf[p + 1:]
    if how == "truncate":
        # drops the end of the index
        return buf[:len(buf) - 1 - at % min(len(buf), ilen)]
    if how == "empty":
        return b""
    if how == "shift":
        # bytes between the chunks and the end of the file: the index is not where it has to be
        return buf + b"\0" * (1 + at % 20)
    v = list(struct.unpack("<%dQ" % (2 * ns), buf[body:-4]))
    live = [k for k in range(ns) if v[2 * k] != 2 ** 64 - 1]
    k = live[at % len(live)]
    if how == "bounds":
        if bit % 2:
            v[2 * k + 1] = body - v[2 * k] + 1 + at % 50
        else:
            v[2 * k] = body + 1 + at % (ilen + 50)
    else:
        v[2 * k] = 2 ** 64 - 2 - at % 50 if bit % 2 else 2 ** 63 + at % 50
        if bit & 2:
            v[2 * k + 1] = 2 ** 64 - v[2 * k] + at % 7     # wraps around to a small end
            if v[2 * k + 1] == 2 ** 64 - 1:
                v[2 * k + 1] -= 1
    ib = struct.pack("<%dQ" % (2 * ns), *v)
    return buf[:body] + ib + struct.pack("<I", spec.crc32c(ib))


def run_corrupt(case, ctx):
    cfg = case["cfg"]
    root = ctx.path(".zarr")
    f, ds = M.create(root, cfg)
    fill = M.fill_of(cfg)
    ref = M.make(case["d"], cfg["shape"], cfg["dtype"], fill)
    ds[...] = ref
    path = root + "/data"
    arr = spec.read(path)
    if not arr.shard_files:
        return
    sids = sorted(arr.shard_files)
    sid = sids[case["at"] % len(sids)]
    e = "v2" if cfg["enc"] == "v2" else "default"
    name = ".".join(map(str, sid)) if e == "v2" else "c/" + "/".join(map(str, sid))
    p = os.path.join(path, name)
    with open(p, "rb") as fh:
        buf = fh.read()
    ns = int(np.prod([s // c for s, c in zip(cfg["shards"], M.chunks_of(cfg))]))
    bad = damage(buf, ns, case["how"], case["at"], case["bit"])
    try:
        spec.parse_shard(bad, ns)
        # by chance the damage gives another valid index
        return
    except spec.Bad:
        pass
    with open(p, "wb") as fh:
        fh.write(bad)
    if case["reopen"]:
        ds = M.open_file(root, "z3", "a")["data"]
    ds.n_threads = case["t"]
    snap = M.snapshot(root)
    sh = tuple(slice(i * s, min((i + 1) * s, n)) for i, s, n in zip(sid, cfg["shards"], cfg["shape"]))
    cells = [c for c in spec.grid(cfg["shape"], M.chunks_of(cfg)) if all(i * k // s == j for i, k, s, j in zip(c, M.chunks_of(cfg), cfg["shards"], sid))]
    cid = cells[case["cell"] % len(cells)]
    ctx.label("damage:" + case["how"])
    ctx.label("update:" + case["upd"])
    ctx.nontrivial = True

    def must_raise(what, fn):
        try:
            fn()
        except Exception:
            pass
        else:
            check(False, "%s of a shard with a damaged index (%s) did not raise", what, case["how"])
        d = M.snapdiff(snap, M.snapshot(root))
        check(not d, "%s of a shard with a damaged index (%s) changed files: %s", what, case["how"], d)
    must_raise("reading the array", lambda: ds[...])
    must_raise("reading the region", lambda: ds[sh])
    must_raise("reading a chunk", lambda: ds.read_chunk(cid))
    must_raise("reading the region of a chunk", lambda: ds[M.chunk_slices(cfg, cid)])
    cs = M.chunk_slices(cfg, cid)
    part = np.ones([x.stop - x.start for x in cs], dtype=cfg["dtype"]) * 3
    if len(cells) > 1:
        # the other chunks of the shard would be lost
        if case["upd"] == "w":
            must_raise("a region write", lambda: ds.__setitem__(cs, part))
        elif case["upd"] == "s":
            must_raise("a scalar write", lambda: ds.__setitem__(cs, 3))
        elif case["upd"] == "chunk":
            must_raise("a chunk write", lambda: ds.write_chunk(cid, np.full(M.chunks_of(cfg), 3, dtype=cfg["dtype"])))
        elif case["upd"] == "fillchunk":
            must_raise("a chunk write of fill values", lambda: ds.write_chunk(cid, np.full(M.chunks_of(cfg), fill, dtype=cfg["dtype"])))
        else:
            must_raise("a chunk removal", lambda: ds._impl.remove_chunk(list(cid)))
    # the other shards can still be read and written
    for s2 in sids:
        if s2 != sid:
            r = tuple(slice(i * s, min((i + 1) * s, n)) for i, s, n in zip(s2, cfg["shards"], cfg["shape"]))
            got = np.asarray(ds[r]).reshape(ref[r].shape)
            check(M.same(got, ref[r]), "shard %s beside the damaged one: %s", s2, M.diff(got, ref[r]))
            ds[r] = part.flat[0]
            got = np.asarray(ds[r])
            check((got == part.flat[0]).all(), "write to shard %s beside the damaged one", s2)
            ctx.label("other-shard")
            break
    # intact again: nothing was lost
    with open(p, "wb") as fh:
        fh.write(buf)
    got = np.asarray(ds[sh]).reshape(ref[sh].shape)
    check(M.same(got, ref[sh]), "after repair: %s", M.diff(got, ref[sh]))


SUBS = [Sub("history", histories, run, quick=3200, batch=50),
        Sub("corrupt-index", corrupt_cases, run_corrupt, quick=3200, batch=50)]

"""P13: the chunk grid partitions the array and every region exactly."""
import os

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv.core import CppSub, Sub, check

TECHNIQUE = "property-based testing: generated grids and regions against brute force and exact integer arithmetic; huge sparse datasets against a model"
RULE = ("tiling/regions: small grids of 1-5 dims checked element by element; huge: extents up to 2^60 checked with 128 bit arithmetic; "
        "far: regions written and read far out in datasets of up to 2^50 elements per axis. Non-trivial: a ragged grid (tiling), a region touching more than one block "
        "(regions), an extent beyond 2^32 (huge), an offset beyond 2^31 (far).")


@st.composite
def far_case(draw):
    fmt = draw(st.sampled_from(["n5", "z2", "z3", "z3s"]))
    nd = draw(st.integers(1, 3))
    bits = {1: 60, 2: 45, 3: 33}[nd]
    shape, chunks, begin, ext = [], [], [], []
    for _ in range(nd):
        s = (1 << draw(st.integers(3, bits))) + draw(st.integers(0, 100))
        c = draw(st.integers(1, min(s, 12)))
        # keep the total number of chunks within 62 bit
        n = draw(st.integers(1, min(s, 3 * c)))
        where = draw(st.sampled_from(["end", "any", "aligned"]))
        if where == "end":
            b = s - n
        else:
            b = draw(st.integers(0, s - n))
            if where == "aligned":
                b = b // c * c
        shape.append(s)
        chunks.append(c)
        begin.append(b)
        ext.append(n)
    case = dict(fmt=fmt, shape=shape, chunks=chunks, begin=begin, ext=ext, seed=draw(st.integers(0, 999)),
                dtype=draw(st.sampled_from(["uint8", "int16", "float64"])), t=draw(st.sampled_from([1, 3])))
    if fmt == "z3s":
        case["shards"] = [c * draw(st.integers(1, 3)) for c in chunks]
    return case


def far(case, ctx):
    path = ctx.path(M.ext_of(case["fmt"]))
    cfg = dict(fmt=case["fmt"], shape=case["shape"], chunks=case["chunks"], dtype=case["dtype"], codec="raw", copts={},
               fill=0, threads=case["t"], sep=".", enc="default", shards=case.get("shards"))
    nd = len(case["shape"])
    total = 1
    for s, c in zip(case["shape"], case["chunks"]):
        total *= -(-s // c)
    if total >= 2 ** 62:
        from zv.core import Skip
        raise Skip()
    f, ds = M.create(path, cfg)
    check(ds.shape == tuple(case["shape"]) and ds.chunks == tuple(case["chunks"]), "shape/chunks %s %s", ds.shape, ds.chunks)
    check(list(ds.chunks_per_dimension) == [-(-s // c) for s, c in zip(case["shape"], case["chunks"])],
          "chunks per dimension %s", ds.chunks_per_dimension)
    check(ds.number_of_chunks == total, "number of chunks %s != %s", ds.number_of_chunks, total)
    check(len(ds) == case["shape"][0], "len")
    rng = np.random.default_rng(case["seed"])
    a = rng.integers(1, 100, size=case["ext"]).astype(case["dtype"])
    s = tuple(slice(b, b + n) for b, n in zip(case["begin"], case["ext"]))
    ds[s] = a
    check(M.same(ds[s], a), "read back: %s", M.diff(ds[s], a))
    # exactly the chunks (or shards) that intersect the region exist
    unit = case.get("shards") or case["chunks"]
    rngs = [range(b // u, (b + n - 1) // u + 1) for b, n, u in zip(case["begin"], case["ext"], unit)]
    want = set()
    import itertools
    for idx in itertools.product(*rngs):
        if case["fmt"] == "n5":
            want.add("/".join(map(str, idx[::-1])))
        elif case["fmt"] == "z2":
            want.add(".".join(map(str, idx)))
        else:
            want.add("c/" + "/".join(map(str, idx)))
    root = os.path.join(path, "data")
    got = {p for p in M.snapshot(root) if not p.endswith("/") and not p.endswith(".json") and not p.endswith(".zarray")}
    check(got == want, "chunk files %s, expected %s", sorted(got)[:5], sorted(want)[:5])
    # chunk level access far out
    cid = [(b + n - 1) // c for b, n, c in zip(case["begin"], case["ext"], case["chunks"])]
    check(ds.chunk_exists(cid), "chunk %s does not exist", cid)
    cs = [min(c, sh - i * c) for c, sh, i in zip(case["chunks"], case["shape"], cid)]
    check(list(ds.get_chunk_shape(cid)) == cs, "chunk shape %s != %s", ds.get_chunk_shape(cid), cs)
    # a slightly larger region: surroundings are fill
    lo = [max(0, b - 2) for b in case["begin"]]
    hi = [min(sh, b + n + 2) for b, n, sh in zip(case["begin"], case["ext"], case["shape"])]
    ref = np.zeros([h - l for l, h in zip(lo, hi)], dtype=case["dtype"])
    ref[tuple(slice(b - l, b - l + n) for b, n, l in zip(case["begin"], case["ext"], lo))] = a
    got = ds[tuple(slice(l, h) for l, h in zip(lo, hi))]
    check(M.same(got, ref), "larger region: %s", M.diff(got, ref))
    ctx.nontrivial = any(b > 2 ** 31 for b in case["begin"])
    ctx.label("fmt:" + case["fmt"])


SUBS = [
    CppSub("tiling", "p13_blocking", "tiling", quick=24000, san="asan", workers=4),
    CppSub("regions", "p13_blocking", "regions", quick=24000, san="asan", workers=4),
    CppSub("huge", "p13_blocking", "huge", quick=80000, san="asan", workers=4),
    Sub("far", far_case, far, quick=1200, workers=6),
]

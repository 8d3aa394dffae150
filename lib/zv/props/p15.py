"""P15: invalid requests are rejected without any effect."""
import warnings

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv.core import CppSub, Sub, check
from zv.props import p07

RULE = ("requests: a case is a dataset configuration with a short write history and 3-12 requests that are invalid in exactly one way (offset or extent out of bounds up to 2^70, negative, fractional, "
        "wrong dimensionality, wrong element type or count, chunk ids outside of the grid, a repeat of a valid request in between as a control); every case is non-trivial: all its requests have to be refused "
        "and each is followed by a comparison of all files, each control request must work. create: one argument of create_dataset is invalid (always non-trivial). "
        "views (C++, AddressSanitizer): 2-10 invalid requests through the C++ API (regions with offsets and extents around the limits and beyond 2^63, other element types of the same or another size, wrong dimensions, empty axes, chunk ids outside of the grid, varlen chunks in zarr) with exactly sized buffers, same rule; creation (C++): one invalid argument of createDataset, and existing names; iterate (C++): iteration over chunks or blocks with regions outside of the array, reversed, or of other dimensions, and empty or ill-dimensioned block shapes: refused without a call.")
TECHNIQUE = "property-based negative testing: generated single-fault requests must raise and leave a byte snapshot of the container and a numpy model unchanged; the C++ API under AddressSanitizer"
ASSUMPTIONS = ["reading, probing or removing a chunk id outside of the grid may report absence instead of raising", "an empty region is no request at all"]

BIG = [2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 - 1, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]
HUGE = [2 ** 64, 2 ** 64 + 1, 2 ** 70]
KINDS = ["read", "read", "write", "write", "scalar", "scalar", "chunk-write", "chunk-read", "chunk-exists", "chunk-shape", "chunk-remove", "direct", "method"]
FAULTS = {
    "read": ["start", "extent", "ndim-start", "ndim-out", "dtype", "negative", "fraction", "both", "ndim-both"],
    "write": ["start", "extent", "ndim-start", "ndim-out", "dtype", "negative", "fraction", "both", "ndim-both"],
    "scalar": ["start", "extent", "ndim-start", "ndim-out", "dtype", "negative", "fraction", "both", "ndim-both", "neg-extent", "value", "wrap"],
    "chunk-write": ["ndim", "outside", "negative", "count", "dtype", "huge"],
    "chunk-read": ["ndim", "outside", "negative", "huge"],
    "chunk-exists": ["ndim", "outside", "negative", "huge"],
    "chunk-shape": ["ndim", "outside", "negative", "huge"],
    "chunk-remove": ["ndim", "outside", "negative", "huge"],
    "direct": ["size", "outside"],
    "method": ["start", "extent", "ndim-start", "dtype", "negative", "short-stop"],
}


@st.composite
def cases(draw):
    cfg = draw(M.configs())
    reqs = []
    for _ in range(draw(st.integers(3, 12))):
        k = draw(st.sampled_from(KINDS))
        reqs.append(dict(k=k, f=draw(st.sampled_from(FAULTS[k])), ax=draw(st.integers(0, 4)), r=draw(M.regions(cfg["shape"])), c=[draw(st.integers(0, n - 1)) for n in M.grid(cfg)],
                         n=draw(st.one_of(st.integers(1, 5), st.sampled_from(BIG))), huge=draw(st.sampled_from(HUGE)), t=draw(st.sampled_from([1, 1, 2, 5])), s=draw(st.integers(0, 999)), ctl=draw(st.integers(0, 3)) == 0))
    return dict(cfg=cfg, pre=draw(M.writes(cfg, 0, 3)), reqs=reqs)


OK_ERRORS = (RuntimeError, TypeError, ValueError, IndexError, OverflowError, MemoryError, OSError, KeyError, AttributeError)


def other(dt, s):
    return np.dtype([x for x in M.DTYPES + ["complex64", "complex128"] if np.dtype(x) != dt][s % 11])


def run(case, ctx):
    from z5py import _z5py
    cfg = case["cfg"]
    dt = np.dtype(cfg["dtype"])
    root = ctx.path(M.ext_of(cfg["fmt"]))
    f, ds = M.create(root, cfg)
    ref = M.apply_writes(ds, M.model_of(cfg), cfg, case["pre"])
    im = ds._impl
    nd = len(cfg["shape"])
    g = M.grid(cfg)
    snap = M.snapshot(root)
    for i, q in enumerate(case["reqs"]):
        k, flt, r, t = q["k"], q["f"], q["r"], q["t"]
        ax = q["ax"] % nd
        start = [a for a, b in r]
        shape = [b - a for a, b in r]
        S = cfg["shape"]
        dtq = dt
        what = "request %d %s/%s" % (i, k, flt)
        call = None
        if k in ("read", "write", "scalar"):
            if flt == "start":
                # the block ends beyond the array (also by wrapping around)
                start[ax] = S[ax] - shape[ax] + q["n"] if q["n"] < 10 else q["n"]
            elif flt == "extent":
                # only scalars can be requested with an extent that exceeds memory
                if k == "scalar":
                    shape[ax] = S[ax] - start[ax] + q["n"] if q["n"] < 10 else q["n"]
                else:
                    shape[ax] = S[ax] - start[ax] + min(q["n"], 50)
            elif flt == "both":
                for d in range(nd):
                    start[d] = S[d] + (q["n"] if q["n"] < 10 else 0)
            elif flt == "ndim-start":
                start = start + [0] if q["s"] % 2 or nd == 1 else start[:-1]
            elif flt == "ndim-out":
                shape = shape + [1] if q["s"] % 2 or nd == 1 else shape[:-1]
            elif flt == "ndim-both":
                long = q["s"] % 2 or nd == 1
                start = start + [q["s"] % 3] if long else start[:-1]
                shape = shape + [1 + q["s"] % 2] if long else shape[:-1]
            elif flt == "dtype":
                dtq = other(dt, q["s"])
            elif flt == "negative":
                start[ax] = -1 - q["s"] % 3 if q["s"] % 2 else -q["huge"]
            elif flt == "fraction":
                start[ax] = start[ax] + 0.5
            elif flt == "neg-extent":
                shape[ax] = -1
            elif flt == "wrap":
                # start + extent wraps around 2^64 to a number in bounds
                start[ax] = max(1, start[ax])
                shape[ax] = 2 ** 64 - start[ax] + q["s"] % (S[ax] + 1)
                if shape[ax] >= 2 ** 64:
                    shape[ax] = 2 ** 64 - 1
            if k == "scalar":
                if flt == "dtype" and dtq.kind == "c":
                    dtq = np.dtype("float64" if dt != np.float64 else "float32")
                val = "a" if flt == "value" else 1

                def call(start=start, shape=shape, dtq=dtq, val=val):
                    _z5py.write_scalar(im, start, shape, val, str(dtq), t)
            elif k == "read":
                out = np.full(shape, 7, dtype=dtq)

                def call(start=start, out=out):
                    _z5py.read_subarray(im, out, start, t)
            else:
                arr = np.full(shape, 1, dtype=dtq)

                def call(start=start, arr=arr):
                    _z5py.write_subarray(im, arr, start, t)
        elif k == "method":
            stop = [a + n for a, n in zip(start, shape)]
            if flt == "start":
                start[ax], stop[ax] = S[ax], S[ax] + 1 + q["n"] % 7
            elif flt == "extent":
                stop[ax] = S[ax] + 1 + q["n"] % 7
            elif flt == "ndim-start":
                start = start + [0] if q["s"] % 2 or nd == 1 else start[:-1]
                stop = stop + [1] if q["s"] % 2 or nd == 1 else stop[:-1]
            elif flt == "dtype":
                dtq = other(dt, q["s"])
            elif flt == "negative":
                start[ax], stop[ax] = -2, -1
            elif flt == "short-stop":
                stop = stop[:-1]
            if q["s"] % 3 == 0 and flt != "dtype" and flt != "short-stop":
                def call(start=start, stop=stop):
                    ds.read_subarray(start, stop)
            else:
                if flt == "short-stop":
                    def call(start=start, stop=stop):
                        ds.read_subarray(start, stop)
                else:
                    arr = np.full([b - a for a, b in zip(start, stop)], 1, dtype=dtq)

                    def call(start=start, arr=arr):
                        ds.write_subarray(start, arr)
        elif k == "direct":
            stop = [a + n for a, n in zip(start, shape)]
            sh = list(shape)
            if flt == "size":
                # the source is larger or smaller than the selection in the dataset
                sh[ax] += 1 if q["s"] % 2 or sh[ax] == 1 else -1
            else:
                stop[ax] += S[ax]
                sh[ax] += S[ax]
            arr = np.full(sh, 1, dtype=dt)

            def call(arr=arr, sel=tuple(slice(a, b) for a, b in zip(start, stop))):
                ds.write_direct(arr, dest_sel=sel)
        else:
            c = list(q["c"])
            want = [s.stop - s.start for s in M.chunk_slices(cfg, c)] if cfg["fmt"] == "n5" else M.chunks_of(cfg)
            if flt == "ndim":
                c = c + [0] if q["s"] % 2 or nd == 1 else c[:-1]
            elif flt == "outside":
                c[ax] = g[ax] + (q["n"] - 1 if q["n"] < 10 else 0)
            elif flt == "huge":
                c[ax] = max(q["n"], 2 ** 31 - 1)
            elif flt == "negative":
                c[ax] = -1
            elif flt == "count":
                n = int(np.prod(want))
                want = [n + 1 + q["s"] % 3] if q["s"] % 2 or n == 1 else [n - 1]
            elif flt == "dtype":
                dtq = other(dt, q["s"])
            if k == "chunk-write":
                arr = np.full(want, 1, dtype=dtq)

                def call(c=c, arr=arr):
                    ds.write_chunk(c, arr)
            elif k == "chunk-read":
                def call(c=c):
                    return ds.read_chunk(c) is None
            elif k == "chunk-exists":
                def call(c=c):
                    return ds.chunk_exists(c) is False
            elif k == "chunk-shape":
                def call(c=c):
                    ds.get_chunk_shape(c, bool(q["s"] % 2))
            else:
                def call(c=c):
                    im.remove_chunk(c)
                    return True
        # positions outside of the grid may be reported as absent
        absent = k in ("chunk-read", "chunk-exists", "chunk-remove") and flt in ("outside", "huge")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = call()
        except OK_ERRORS:
            pass
        else:
            check(absent and res is True, "%s was accepted: region %s %s, chunk %s, dtype %s", what, start, shape, q["c"], dtq)
        now = M.snapshot(root)
        check(now == snap, "%s changed %s", what, M.snapdiff(snap, now))
        if k == "read":
            check(bool((out == 7).all()) or flt == "dtype", "%s: a refused read wrote into its output", what)
        if q["ctl"]:
            # the valid request next to it works
            s = M.sl(r)
            check(M.same(ds[s], ref[s]), "%s: valid read afterwards: %s", what, M.diff(ds[s], ref[s]))
            a = M.make(dict(p="small", s=q["s"]), M.rshape(r), dt)
            ds.write_subarray([x for x, _ in r], a)
            ref[s] = a
            snap = M.snapshot(root)
        ctx.label(k + "/" + flt)
    got = M.open_file(root, cfg["fmt"], "r")["data"][...]
    check(M.same(got, ref), "at the end: %s", M.diff(got, ref))
    ctx.nontrivial = True


SUBS = [Sub("requests", cases, run, quick=3000, batch=50),
        Sub("create", p07.bad_cases, p07.invalid, quick=2500, batch=50),
        CppSub("views", "p15_requests", "views", quick=2500),
        CppSub("creation", "p15_requests", "creation", quick=1500),
        CppSub("iterate", "p15_requests", "iterate", quick=3000)]

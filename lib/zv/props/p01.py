"""P01: a dataset behaves as the array its write history defines."""
import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv.core import CppSub, Sub, check

RULE = ("A case is a dataset configuration (format, dtype, 1-5 dims, chunks, shards, codec and options, fill value, threads) and a history of "
        "3-14 operations (region writes through four interfaces and six memory layouts, scalar writes, chunk writes, chunk removals, region reads, "
        "re-opens, thread changes), each performed and observed through one of two live handles of the dataset, replayed on a numpy array; everything is compared after every operation that writes, arrays passed to writes and returned by reads stay as they are. Non-trivial: at least two "
        "mutating operations, one of which covers some chunk partially or rewrites or removes an existing chunk. views: the same for the C++ API "
        "with strided views of any layout, complex types and every thread count (AddressSanitizer).")
TECHNIQUE = "stateful model-based property testing: generated operation histories against a numpy array model (Hypothesis); C++ views against the same kind of model (RapidCheck-style generator under AddressSanitizer)"
ASSUMPTIONS = ["local file system backend only (S3/GCS are not built here)",
               "zeros of either sign and NaN payloads are not distinguished"]


@st.composite
def history(draw, cfg_strategy=M.configs(), maxops=12):
    cfg = draw(cfg_strategy)
    g = M.grid(cfg)
    ops = []
    for _ in range(draw(st.integers(3, maxops))):
        k = draw(st.sampled_from(["write", "write", "write", "scalar", "chunk", "remove", "read", "reopen", "direct", "subarray"]))
        if k in ("write", "direct", "subarray"):
            o = dict(op=k, r=draw(M.regions(cfg["shape"])), d=draw(M.pattern()), lay=draw(st.sampled_from(M.LAYOUTS)))
            if k == "write":
                o["src"] = draw(st.sampled_from(["same", "same", "same", "list", "be", "cast"]))
        elif k == "scalar":
            o = dict(op=k, r=draw(M.regions(cfg["shape"])), v=draw(st.one_of(st.just("FILL"), M.scalars(cfg["dtype"]))),
                     how=draw(st.sampled_from(["py", "np", "float", "bool"])))
        elif k in ("chunk", "remove"):
            o = dict(op=k, c=[draw(st.integers(0, n - 1)) for n in g])
            if k == "chunk":
                o["d"] = draw(M.pattern())
        elif k == "read":
            o = dict(op=k, r=draw(M.regions(cfg["shape"])), how=draw(st.sampled_from(["get", "sub", "direct"])))
        else:
            o = dict(op="reopen", t=draw(st.sampled_from([1, 2, 4, 7])), m=draw(st.sampled_from(["a", "r+"])))
        # which of two live handles of the dataset performs the operation and which one looks at the result
        o["h"], o["rh"] = draw(st.sampled_from([[0, 0], [0, 0], [0, 1], [1, 0], [1, 1]]))
        ops.append(o)
    return dict(cfg=cfg, ops=ops)


def run_history(case, ctx):
    cfg = case["cfg"]
    dt = np.dtype(cfg["dtype"])
    path = ctx.path(M.ext_of(cfg["fmt"]))
    f, ds = M.create(path, cfg)
    handles = [ds, None]
    ref = M.model_of(cfg)

    def handle(i):
        if handles[i] is None:
            handles[i] = M.open_file(path, cfg["fmt"], "a", cfg.get("sep"))["data"]
            ctx.label("second-handle")
        return handles[i]
    fill = M.fill_of(cfg)
    ctx.label("fmt:" + cfg["fmt"])
    ctx.label("codec:" + cfg["codec"])
    mut, interesting = 0, False
    kept = []

    def compare(what, i, rh=0):
        got = handle(rh)[...]
        check(M.same(got, ref), "after op %d (%s): %s", i, what, M.diff(got, ref))
    compare("create", -1)
    for i, o in enumerate(case["ops"]):
        k = o["op"]
        ds = handle(o["h"])
        if k in ("write", "direct", "subarray"):
            a = M.make(o["d"], M.rshape(o["r"]), dt, fill)
            arr = M.layout(a, o["lay"])
            s = M.sl(o["r"])
            given = arr.copy()
            if k == "write":
                if o["src"] == "list":
                    arr = a.tolist()
                elif o["src"] == "be":
                    arr = a.astype(dt.newbyteorder(">"))
                elif o["src"] == "cast" and dt.kind != "f":
                    arr = a if dt.itemsize > 4 else a.astype("int64" if dt.kind == "i" else "uint64")
                ds[s] = arr
            elif k == "direct":
                big = np.zeros(cfg["shape"], dtype=dt)
                big[s] = a
                ds.write_direct(big, s, s)
            else:
                ds.write_subarray([x.start for x in s], arr)
            check(not isinstance(arr, np.ndarray) or M.same(np.asarray(arr, dtype=dt), given), "op %d (%s) changed the array that was written", i, k)
            ref[s] = a
            mut += 1
            part = M.partial_chunks(cfg, o["r"])
            ctx.label("partial-write", part)
            interesting |= part and mut > 1
            ctx.label("data:" + o["d"]["p"])
        elif k == "scalar":
            v = cfg["fill"] if o["v"] == "FILL" else o["v"]
            v = M.scalar_arg(v, o["how"], dt)
            ds[M.sl(o["r"])] = v
            ref[M.sl(o["r"])] = v
            mut += 1
            interesting |= mut > 1 and M.partial_chunks(cfg, o["r"])
            ctx.label("scalar")
        elif k == "chunk":
            s = M.chunk_slices(cfg, o["c"])
            valid = tuple(x.stop - x.start for x in s)
            if cfg["fmt"] == "n5":
                a = M.make(o["d"], valid, dt, fill)
                ds.write_chunk(o["c"], a)
                ref[s] = a
            else:
                # edge chunks are stored padded; the part outside of the dataset holds the fill value
                full = np.full(M.chunks_of(cfg), fill, dtype=dt)
                a = M.make(o["d"], valid, dt, fill)
                full[tuple(slice(0, n) for n in valid)] = a
                ds.write_chunk(o["c"], full)
                ref[s] = a
            mut += 1
            interesting |= mut > 1
            ctx.label("chunk-write")
        elif k == "remove":
            ds._impl.remove_chunk(o["c"])
            ref[M.chunk_slices(cfg, o["c"])] = fill
            mut += 1
            interesting |= mut > 1
            ctx.label("chunk-remove")
        elif k == "read":
            s = M.sl(o["r"])
            if o["how"] == "get":
                got = ds[s]
            elif o["how"] == "sub":
                got = ds.read_subarray([x.start for x in s], [x.stop for x in s])
            else:
                whole = np.ones(cfg["shape"], dtype=dt)
                ds.read_direct(whole, s, s)
                got = whole[s].copy()
                whole[s] = 1
                check((whole == 1).all(), "read_direct at op %d wrote outside of the selection %s", i, o["r"])
            kept.append((got, got.copy()))
            check(M.same(got, ref[s]), "read %s at op %d: %s", o["r"], i, M.diff(got, ref[s]))
            continue
        else:
            f = M.open_file(path, cfg["fmt"], o["m"], cfg.get("sep"))
            ds = handles[o["h"]] = f["data"]
            ds.n_threads = o["t"]
            ctx.label("reopen")
        compare(k, i, o["rh"])
    # a last look through a fresh handle
    handles[0] = M.open_file(path, cfg["fmt"], "r")["data"]
    compare("final reopen", len(case["ops"]))
    check(all(M.same(a, b) for a, b in kept), "an array that was read earlier changed with later writes")
    ctx.nontrivial = interesting


SUBS = [Sub("history", history, run_history, quick=1600, batch=50),
        CppSub("views", "ds_views", "history", quick=1500, san="asan")]

"""P12: results do not depend on threads, and disjoint concurrent writes are not lost."""
import os
import threading

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv.core import CppSub, Sub, check

TECHNIQUE = "property-based testing of generated concurrent histories under ThreadSanitizer and AddressSanitizer, against a model; differential testing of thread counts"
RULE = ("threads: one history (region and scalar writes with any memory layout, removals, utilities) applied with 1 and with n threads to two datasets, compared with each other and with a model array; non-trivial: a threaded write over more than one chunk. "
        "concurrent, shard: 2-6 threads on one dataset object (for formats with one file per chunk also on one object each), each owning a generated set of chunks: chunk, region, scalar writes, removals, reads; plus chunks that all only read; "
        "each thread must see exactly its own writes, and the final state must be what the owners wrote last; shard puts many inner chunks into few shards. Non-trivial: at least two writing threads. "
        "python: the same through python threads and n_threads. processes: the same with 2-5 forked processes that own disjoint chunks (shards of sharded datasets) and attribute sets.")
ASSUMPTIONS = ["the harness does not own the scheduler: interleavings are those the machine produces, with ThreadSanitizer's happens-before analysis on top",
               "several dataset objects writing into the same shard at the same time are outside of the property",
               "codec libraries are not instrumented"]

OPS = ["write", "write", "write", "chunk", "scalar", "remove", "read"]


@st.composite
def cases(draw):
    cfg = draw(M.configs(max_ndim=draw(st.sampled_from([2, 3, 5])), threads=(1, 1, 2, 4)))
    k = draw(st.integers(2, 6))
    n = int(np.prod(M.grid(cfg)))
    plans = [[dict(op=draw(st.sampled_from(OPS)), c=draw(st.integers(0, n)), d=draw(M.pattern()), part=draw(st.booleans()))
              for _ in range(draw(st.integers(1, 8)))] for _ in range(k)]
    return dict(cfg=cfg, plans=plans, rr=draw(st.booleans()), separate=draw(st.booleans()))


def run(case, ctx):
    cfg = case["cfg"]
    f, ds = M.create(ctx.path(M.ext_of(cfg["fmt"])), cfg)
    ref = M.model_of(cfg)
    fill = M.fill_of(cfg)
    ids = [tuple(int(x) for x in i) for i in np.ndindex(*M.grid(cfg))]
    k = len(case["plans"])
    start = np.arange(ref.size).reshape(ref.shape).astype(ref.dtype)
    ds[...] = start
    ref[...] = start
    own = [ids[j::k] if case["rr"] else ids[j * len(ids) // k:(j + 1) * len(ids) // k] for j in range(k)]
    cs = tuple(M.chunks_of(cfg))
    barrier = threading.Barrier(k)
    errors = []
    separate = case["separate"] and cfg["fmt"] != "z3s"
    objs = [M.open_file(f.path if hasattr(f, "path") else f.filename, cfg["fmt"], "a", cfg.get("sep"))["data"] if separate else ds for _ in range(k)]
    if separate:
        for o in objs:
            o.n_threads = cfg["threads"]
    writers = set()

    def work(j):
        d = objs[j]
        try:
            barrier.wait()
            for n, o in enumerate(case["plans"][j]):
                if not own[j]:
                    return
                c = own[j][o["c"] % len(own[j])]
                s = M.chunk_slices(cfg, c)
                shape = tuple(x.stop - x.start for x in s)
                if o["op"] == "write":
                    if o["part"]:
                        s = tuple(slice(x.start, x.stop - (x.stop - x.start) // 2) for x in s)
                        shape = tuple(x.stop - x.start for x in s)
                    a = M.make(o["d"], shape, ref.dtype, fill)
                    d[s] = a
                    ref[s] = a
                elif o["op"] == "chunk":
                    a = M.make(o["d"], shape, ref.dtype, fill)
                    full = a
                    if cfg["fmt"] != "n5":
                        full = np.full(cs, fill, dtype=ref.dtype)
                        full[tuple(slice(0, x) for x in shape)] = a
                    d.write_chunk(c, full)
                    ref[s] = a
                elif o["op"] == "scalar":
                    v = ref.dtype.type(o["d"]["s"] % 100)
                    d[s] = v
                    ref[s] = v
                elif o["op"] == "remove":
                    d._impl.remove_chunk(c)
                    ref[s] = fill
                if o["op"] != "read":
                    writers.add(j)
                s = M.chunk_slices(cfg, c)
                got = d[s]
                check(M.same(got, ref[s]), "thread %d op %d: chunk %s after %s: %s", j, n, c, o["op"], M.diff(got, ref[s]))
        except Exception as e:
            errors.append("thread %d: %s: %s" % (j, type(e).__name__, e))
            barrier.abort()

    ts = [threading.Thread(target=work, args=(j,)) for j in range(k)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    check(not errors, "%s", "; ".join(sorted(errors, key=lambda e: "Barrier" in e)[:3]))
    for n in (1, 3, 8):
        ds.n_threads = n
        got = ds[...]
        check(M.same(got, ref), "after joining, read with %d threads: %s", n, M.diff(got, ref))
    for c in ids:
        s = M.chunk_slices(cfg, c)
        stored = not bool(((ref[s] == fill) | ((ref[s] != ref[s]) & (fill != fill))).all())
        check(ds.chunk_exists(c) == stored, "chunk %s exists: %s", c, not stored)
    ctx.nontrivial = len(writers) > 1
    ctx.label("fmt:" + cfg["fmt"])
    ctx.label("separate", separate)
    ctx.label("writers:%d" % len(writers))


@st.composite
def process_cases(draw):
    cfg = draw(M.configs(max_ndim=draw(st.sampled_from([2, 3, 5])), threads=(1, 1, 2)))
    k = draw(st.integers(2, 5))
    n = int(np.prod(M.grid(cfg)))
    plans = [[dict(op=draw(st.sampled_from(OPS + ["attr"])), c=draw(st.integers(0, n)), d=draw(M.pattern()), part=draw(st.booleans())) for _ in range(draw(st.integers(2, 14)))] for _ in range(k)]
    return dict(cfg=cfg, plans=plans, rr=draw(st.booleans()), filled=draw(st.booleans()), reopen=draw(st.booleans()))


def run_processes(case, ctx):
    """Processes (forked, so with the same counters and caches) own disjoint sets of stored objects: chunks, or shards."""
    cfg = case["cfg"]
    path = ctx.path(M.ext_of(cfg["fmt"]))
    f, ds = M.create(path, cfg)
    ref = M.model_of(cfg)
    fill = M.fill_of(cfg)
    k = len(case["plans"])
    if case["filled"]:
        start = np.arange(ref.size).reshape(ref.shape).astype(ref.dtype)
        ds[...] = start
        ref[...] = start
    shared = f.create_dataset("shared", data=np.arange(60, dtype="int32").reshape(6, 10), chunks=(2, 3))
    for j in range(k):
        f.create_group("g%d" % j).attrs["start"] = j
    cs = tuple(M.chunks_of(cfg))
    per = [a // b for a, b in zip(cfg["shards"], cs)] if cfg["fmt"] == "z3s" else [1] * len(cs)
    units = {}
    for i in np.ndindex(*M.grid(cfg)):
        units.setdefault(tuple(int(x) // p for x, p in zip(i, per)), []).append(tuple(int(x) for x in i))
    keys = sorted(units)
    own = [sum((units[u] for u in (keys[j::k] if case["rr"] else keys[j * len(keys) // k:(j + 1) * len(keys) // k])), []) for j in range(k)]
    attrs = [{"start": j} for j in range(k)]

    def play(j, d, g, do):
        """The operations of process j: on the stored objects, or only on the model."""
        for n, o in enumerate(case["plans"][j]):
            if o["op"] == "attr":
                attrs[j]["k%d" % (n % 3)] = [n, o["d"]["s"]]
                if do:
                    g.attrs["k%d" % (n % 3)] = [n, o["d"]["s"]]
                    check(dict(g.attrs.items()) == attrs[j], "process %d op %d: attributes %s instead of %s", j, n, dict(g.attrs.items()), attrs[j])
                continue
            if not own[j]:
                continue
            c = own[j][o["c"] % len(own[j])]
            s = M.chunk_slices(cfg, c)
            shape = tuple(x.stop - x.start for x in s)
            if o["op"] == "write":
                w = tuple(slice(x.start, x.stop - (x.stop - x.start) // 2) for x in s) if o["part"] else s
                a = M.make(o["d"], tuple(x.stop - x.start for x in w), ref.dtype, fill)
                ref[w] = a
                if do:
                    d[w] = a
            elif o["op"] == "chunk":
                a = M.make(o["d"], shape, ref.dtype, fill)
                ref[s] = a
                if do:
                    full = a
                    if cfg["fmt"] != "n5":
                        full = np.full(cs, fill, dtype=ref.dtype)
                        full[tuple(slice(0, x) for x in shape)] = a
                    d.write_chunk(c, full)
            elif o["op"] == "scalar":
                ref[s] = ref.dtype.type(o["d"]["s"] % 100)
                if do:
                    d[s] = ref.dtype.type(o["d"]["s"] % 100)
            elif o["op"] == "remove":
                ref[s] = fill
                if do:
                    d._impl.remove_chunk(c)
            if do:
                got = d[s]
                check(M.same(got, ref[s]), "process %d op %d: chunk %s after %s: %s", j, n, c, o["op"], M.diff(got, ref[s]))
                got = shared[1:5, 2:9]
                check(got.tolist() == np.arange(60).reshape(6, 10)[1:5, 2:9].tolist(), "process %d op %d: the dataset that nobody writes reads as %s", j, n, got.tolist())

    go = os.pipe()
    out = os.pipe()
    pids = []
    for j in range(k):
        pid = os.fork()
        if pid == 0:
            try:
                os.close(go[1])
                os.close(out[0])
                ff = M.open_file(path, cfg["fmt"], "a", cfg.get("sep")) if case["reopen"] else f
                d = ff["data"]
                d.n_threads = cfg["threads"]
                os.read(go[0], 1)
                play(j, d, ff["g%d" % j], True)
            except BaseException as e:
                os.write(out[1], ("process %d: %s: %s\n" % (j, type(e).__name__, e)).encode()[:3000])
                os._exit(1)
            os._exit(0)
        pids.append(pid)
    for p in (go[0], go[1], out[1]):
        os.close(p)
    status = [os.waitpid(p, 0)[1] for p in pids]
    said = b""
    while True:
        b = os.read(out[0], 65536)
        if not b:
            break
        said += b
    os.close(out[0])
    check(not any(status) and not said, "%s (status %s)", said.decode(errors="replace"), status)
    for j in range(k):
        play(j, None, None, False)
        check(dict(f["g%d" % j].attrs.items()) == attrs[j], "attributes of process %d: %s instead of %s", j, dict(f["g%d" % j].attrs.items()), attrs[j])
    for n in (1, 4):
        ds.n_threads = n
        got = ds[...]
        check(M.same(got, ref), "after all processes ended, read with %d threads: %s", n, M.diff(got, ref))
    left = [x for x in M.snapshot(path) if ".z5tmp" in x]
    check(not left, "temporary files remain: %s", left)
    ctx.nontrivial = sum(1 for j in range(k) if own[j] and any(o["op"] not in ("read", "attr") for o in case["plans"][j])) > 1
    ctx.label("fmt:" + cfg["fmt"])
    ctx.label("processes:%d" % k)


SUBS = [
    CppSub("threads", "p12_conc", "threads", quick=1000, san="tsan", replays=25),
    CppSub("concurrent", "p12_conc", "concurrent", quick=1500, san="tsan", replays=25),
    CppSub("shard", "p12_conc", "shard", quick=1500, san="tsan", replays=25),
    CppSub("threads_asan", "p12_conc", "threads", quick=500, san="asan", replays=25),
    CppSub("shard_asan", "p12_conc", "shard", quick=800, san="asan", replays=25),
    Sub("python", cases, run, quick=500, batch=50, replays=25),
    Sub("processes", process_cases, run_processes, quick=400, batch=50, replays=25),
]

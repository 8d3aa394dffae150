"""P16: a write that could not be stored is reported."""
import contextlib
import ctypes
import os
import resource
import shutil

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv.core import CppSub, Sub, check

TECHNIQUE = ("property-based fault injection: generated histories in which each operation is hit by a fault at a generated (or every) system call - through an LD_PRELOAD library - or by a real one "
             "(file size limit, blocked path, unreadable file), judged against a model of everything stored")
RULE = ("A case is a container (format, dtype, codec, shards, threads) with two datasets, a group and attributes, and 1-4 operations (region, scalar, direct and chunk writes, varlen chunks, removals, "
        "attribute changes, creation of datasets and groups, reads of data, chunks, attributes and listings). Each is first run on a copy to count its system calls on the container; then one generated call (or all from it on) fails with ENOSPC, EIO, EACCES, EDQUOT, "
        "a short write or a premature end of file. An operation that returns must have done all (all data, attributes and kinds are read again with a new handle); one that raises must leave each chunk and each attribute set as it was or as written, and all else byte-identical; "
        "repeated without the fault it must succeed. sweep: every call of one operation fails once. real: the same oracle with RLIMIT_FSIZE, directories in the place of chunk and metadata files, files in the place of directories. "
        "utils: unique, counts, trivial chunk removal, region and chunk reads of the C++ API with an unreadable or truncated chunk, callback: a callback of chunk or block iteration throws, for thread counts 1-17, 0, -1, -2 (AddressSanitizer). "
        "Non-trivial: a fault took place.")
ASSUMPTIONS = ["faults of fsync, of the machine (power loss) and of memory are not injected; z5 promises no durability",
               "a close that reports an error for a file opened for reading is not a fault"]


OPENR, OPENW, READ, WRITE, CLOSE, RENAME, MKDIR, UNLINK, STAT, OPENDIR, SEEK = [1 << i for i in range(11)]
WRITING = OPENW | WRITE | CLOSE | RENAME | MKDIR | UNLINK
READING = OPENR | READ | STAT | OPENDIR | SEEK
MASKS = {"write": WRITE, "openw": OPENW, "close": CLOSE, "rename": RENAME, "mkdir": MKDIR, "unlink": UNLINK, "writing": WRITING, "read": READ, "openr": OPENR, "stat": STAT, "opendir": OPENDIR, "seek": SEEK, "reading": READING}
ERRS = [28, 5, 13, 122, -1]

_lib = None


def shim():
    global _lib
    if _lib is None:
        _lib = ctypes.PyDLL(os.environ["ZV_FAULTSHIM"])
        _lib.zv_disarm.restype = _lib.zv_fired.restype = ctypes.c_long
        _lib.zv_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int]
    return _lib


class Fault:
    """Runs an operation with the nth call of a kind failing; nth = 0 only counts."""

    def __init__(self, root, mask, nth=0, err=5, persistent=False):
        self.args = (root.encode(), mask, nth, err, int(persistent))
        self.seen = self.fired = 0

    def __enter__(self):
        shim().zv_arm(*self.args)
        return self

    def __exit__(self, *a):
        self.seen = shim().zv_disarm()
        self.fired = shim().zv_fired()


WOPS = ["w", "w", "w", "s", "wd", "wc", "wc", "rm", "attr", "attrs", "delattr", "gattr", "rattr", "create", "group", "require", "varlen", "newfile"]
ROPS = ["r", "r", "rc", "exists", "attrget", "list", "open", "props"]


@st.composite
def op(draw, cfg, k=None):
    k = k or draw(st.sampled_from(WOPS + ROPS[:3] + ROPS))
    o = dict(op=k)
    if k in ("w", "wd", "s", "r"):
        o["r"] = draw(M.regions(cfg["shape"], full=0.4))
    if k in ("w", "wd", "wc", "create", "varlen"):
        o["d"] = draw(M.pattern())
    if k in ("wc", "rm", "rc", "exists", "varlen"):
        o["c"] = [draw(st.integers(0, n - 1)) for n in M.grid(cfg)]
    if k == "s":
        o["v"] = draw(st.one_of(st.just("FILL"), st.just("FILL"), M.scalars(cfg["dtype"])))
    if k in ("attr", "attrs", "gattr", "rattr"):
        o["v"] = draw(st.one_of(st.integers(0, 5), st.just("x" * 3000)))
    if k in ("create", "group", "require"):
        o["at"] = draw(st.sampled_from(["", "g/", "n/m/"]))
    return o


@st.composite
def cases(draw):
    cfg = draw(M.configs(max_ndim=3))
    # keep the number of calls low
    while np.prod(M.grid(cfg)) > 24:
        k = int(np.argmax(M.grid(cfg)))
        cfg["chunks"][k] = cfg["shape"][k]
        if cfg["fmt"] == "z3s":
            cfg["shards"][k] = cfg["shape"][k]
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        o = draw(op(cfg))
        o["mask"] = draw(st.sampled_from(["writing", "writing"] + list(MASKS) if o["op"] in WOPS else ["reading", "reading", "read", "openr", "stat", "opendir", "seek"]))
        o["n"] = draw(st.integers(0, 40))
        o["e"] = draw(st.sampled_from(ERRS))
        o["pers"] = draw(st.booleans())
        steps.append(o)
    return dict(cfg=cfg, init=draw(M.writes(cfg, 1, 3)), oinit=draw(M.writes(cfg, 1, 2)), steps=steps)


@st.composite
def sweeps(draw):
    c = draw(cases())
    c["steps"] = c["steps"][:1]
    c["steps"][0]["mask"] = "writing" if c["steps"][0]["op"] in WOPS and draw(st.booleans()) else "all"
    return c


class World:
    def __init__(self, case, ctx):
        self.cfg = cfg = case["cfg"]
        self.fmt = cfg["fmt"]
        self.base = os.path.realpath(ctx.dir())
        self.path = os.path.join(self.base, "x" + M.ext_of(self.fmt))
        f = M.open_file(self.path, self.fmt, "a", cfg.get("sep"))
        self.fill = M.fill_of(cfg)
        self.data, self.attrs, self.groups = {}, {"": {}, "g": {}}, {"g"}
        f.create_group("g")
        for n, ini in (("d", case["init"]), ("o", case["oinit"])):
            ds = f.create_dataset(n, **M.create_kwargs(cfg))
            self.data[n] = M.apply_writes(ds, M.model_of(cfg), cfg, ini)
            self.attrs[n] = {"a": 1, "b": [n]}
            ds.attrs.update(self.attrs[n])
        f["g"].attrs["k"] = self.attrs["g"]["k"] = "v"
        f.attrs["k"] = self.attrs[""]["k"] = 0
        self.varlen = {}

    def open(self, path=None, mode="a"):
        return M.open_file(path or self.path, self.fmt, mode, self.cfg.get("sep"))

    def reads(self, o):
        return o["op"] in ROPS

    def applicable(self, o):
        return o["op"] != "varlen" or self.fmt == "n5"

    def target(self, o):
        """Paths below the container that the operation may change."""
        k = o["op"]
        if k in ("create", "group", "require"):
            at = o["at"].split("/")[0]
            return [at + "/" if at else "new" + k + "/"]
        if k == "gattr":
            return ["g/attributes.json", "g/.zattrs", "g/zarr.json"]
        if k == "newfile":
            return ["nothing"]
        if k == "rattr":
            return ["attributes.json", ".zattrs", "zarr.json"]
        return ["d/"]

    def expect(self, o):
        """The changes: (data of d, {object: attributes}, {new dataset: data}, {new groups})."""
        cfg, k = self.cfg, o["op"]
        d = self.data["d"].copy()
        attrs, new, groups = {}, {}, set()
        if k in ("w", "wd"):
            d[M.sl(o["r"])] = M.make(o["d"], M.rshape(o["r"]), cfg["dtype"], self.fill)
        elif k == "s":
            d[M.sl(o["r"])] = M.scalar_arg(cfg["fill"] if o["v"] == "FILL" else o["v"], "np", cfg["dtype"])
        elif k == "wc":
            s = M.chunk_slices(cfg, o["c"])
            d[s] = M.make(o["d"], d[s].shape, cfg["dtype"], self.fill)
        elif k == "rm":
            d[M.chunk_slices(cfg, o["c"])] = self.fill
        elif k == "attr":
            attrs["d"] = dict(self.attrs["d"], a=o["v"])
        elif k == "attrs":
            attrs["d"] = dict(self.attrs["d"], b=o["v"], c=1)
        elif k == "delattr":
            attrs["d"] = {x: y for x, y in self.attrs["d"].items() if x != "b"}
        elif k == "gattr":
            attrs["g"] = dict(self.attrs["g"], k=o["v"])
        elif k == "rattr":
            attrs[""] = dict(self.attrs[""], k=o["v"])
        elif k in ("create", "group", "require"):
            n = o["at"] + "new" + k
            if k == "create":
                new[n] = M.make(o["d"], cfg["shape"], cfg["dtype"], self.fill)
            else:
                groups.add(n)
            if o["at"] == "n/m/":
                groups |= {"n", "n/m"}
        return d, attrs, new, groups

    def do(self, f, o):
        """Run the operation; reads are compared with the model."""
        cfg, k = self.cfg, o["op"]
        if k in ("w", "wd", "s", "wc", "rm", "r", "rc", "exists", "varlen", "props"):
            ds = f["d"]
            ds.n_threads = cfg["threads"]
        if k == "w":
            ds[M.sl(o["r"])] = M.make(o["d"], M.rshape(o["r"]), cfg["dtype"], self.fill)
        elif k == "wd":
            ds.write_direct(M.make(o["d"], M.rshape(o["r"]), cfg["dtype"], self.fill), dest_sel=M.sl(o["r"]))
        elif k == "s":
            ds[M.sl(o["r"])] = M.scalar_arg(cfg["fill"] if o["v"] == "FILL" else o["v"], "np", cfg["dtype"])
        elif k == "wc":
            s = M.chunk_slices(cfg, o["c"])
            a = M.make(o["d"], self.data["d"][s].shape, cfg["dtype"], self.fill)
            if self.fmt != "n5":
                b = np.full(M.chunks_of(cfg), self.fill, cfg["dtype"])
                b[tuple(slice(0, n) for n in a.shape)] = a
                a = b
            ds.write_chunk(tuple(o["c"]), a)
        elif k == "rm":
            ds._impl.remove_chunk(o["c"])
        elif k == "varlen":
            ds.write_chunk(tuple(o["c"]), M.make(o["d"], (7,), cfg["dtype"], 0), True)
        elif k == "attr":
            f["d"].attrs["a"] = o["v"]
        elif k == "attrs":
            f["d"].attrs.update({"b": o["v"], "c": 1})
        elif k == "delattr":
            if "b" in f["d"].attrs:
                del f["d"].attrs["b"]
        elif k == "gattr":
            f["g"].attrs["k"] = o["v"]
        elif k == "rattr":
            f.attrs["k"] = o["v"]
        elif k == "create":
            kw = M.create_kwargs(cfg)
            kw.pop("shape")
            kw.pop("dtype")
            f.create_dataset(o["at"] + "newcreate", data=M.make(o["d"], cfg["shape"], cfg["dtype"], self.fill), **kw)
        elif k == "group":
            f.create_group(o["at"] + "newgroup")
        elif k == "newfile":
            self.new_file(os.path.dirname(f.filename))
        elif k == "require":
            f.require_group(o["at"] + "newrequire")
        elif k == "r":
            got = ds[M.sl(o["r"])]
            check(M.same(got, self.data["d"][M.sl(o["r"])]), "a read returned without an error: %s", M.diff(got, self.data["d"][M.sl(o["r"])]))
        elif k == "rc":
            got = ds.read_chunk(tuple(o["c"]))
            want = self.data["d"][M.chunk_slices(cfg, o["c"])]
            if got is None:
                check(not self.stored(o["c"]), "read_chunk reports a stored chunk as absent")
            else:
                got = got[tuple(slice(0, n) for n in want.shape)]
                check(M.same(got, want), "read_chunk returned without an error: %s", M.diff(got, want))
        elif k == "exists":
            got = ds.chunk_exists(tuple(o["c"]))
            check(got == self.stored(o["c"]), "chunk_exists %s", got)
        elif k == "attrget":
            for n in ("d", "g", ""):
                h = f[n] if n else f
                got = dict(h.attrs.items())
                if self.fmt == "n5" and not n:
                    got.pop("n5", None)
                check(got == self.attrs[n], "attributes read without an error: %s", got)
        elif k == "list":
            check(sorted(f.keys()) == sorted({n.split("/")[0] for n in list(self.data) + list(self.groups)}), "keys listed without an error: %s", sorted(f.keys()))
            check(f["g"].attrs is not None and "d" in f and "nope" not in f and f.is_sub_group("g") and not f.is_sub_group("d"), "membership")
        elif k == "open":
            g = self.open(f.filename, "r")
            check(g["o"].shape == tuple(cfg["shape"]), "opened without an error: shape %s", g["o"].shape)
        elif k == "props":
            check(ds.shape == tuple(cfg["shape"]) and ds.dtype == np.dtype(cfg["dtype"]) and ds.chunks == tuple(M.chunks_of(cfg)), "opened without an error: %s %s %s", ds.shape, ds.dtype, ds.chunks)

    def new_file(self, base):
        n = os.path.join(base, "new" + M.ext_of(self.fmt))
        g = self.open(n)
        g.attrs["n"] = 1
        g = self.open(n, "r")
        check(g.attrs["n"] == 1, "a new container was created without an error, but has no attributes")

    def stored(self, cid):
        v = self.data["d"][M.chunk_slices(self.cfg, cid)]
        return not M.same(v, np.full_like(v, self.fill))

    def verify(self, what, varchunk=None):
        """Everything stored is what the model says (read with a new handle)."""
        f = self.open(mode="r")
        for n, a in self.data.items():
            got = f[n][...]
            check(M.same(got, a), "%s: data of %s: %s", what, n, M.diff(got, a))
        for n, a in self.attrs.items():
            got = dict((f[n] if n else f).attrs.items())
            if self.fmt == "n5" and not n:
                got.pop("n5", None)
            check(got == a, "%s: attributes of %r are %s instead of %s", what, n, str(got)[:300], str(a)[:300])
        for n in self.groups:
            check(n in f and f.is_sub_group(n), "%s: group %s is missing", what, n)

    def commit(self, exp):
        d, attrs, new, groups = exp
        self.data["d"] = d
        self.attrs.update(attrs)
        self.data.update(new)
        for n in new:
            self.attrs.setdefault(n, {})
        self.groups |= groups
        for n in groups:
            self.attrs.setdefault(n, {})

    def settle(self, o, exp, what):
        """After an operation that raised: each chunk and attribute set is as before or as written; the model takes what is there."""
        f = self.open(mode="r")
        d, attrs, new, groups = exp
        cur = f["d"][...]
        for cid in np.ndindex(*M.grid(self.cfg)):
            s = M.chunk_slices(self.cfg, cid)
            check(M.same(cur[s], self.data["d"][s]) or M.same(cur[s], d[s]), "%s: chunk %s is neither as before nor as written", what, cid)
        self.data["d"] = cur
        for n, a in attrs.items():
            got = dict((f[n] if n else f).attrs.items())
            if self.fmt == "n5" and not n:
                got.pop("n5", None)
            check(got == a or got == self.attrs[n], "%s: attributes of %r are %s", what, n, str(got)[:300])
            self.attrs[n] = got

    def shut(self, f):
        pass


def step(w, o, inject, ctx, what):
    """Runs o under inject() (a context manager that says whether the fault took place), then once more without."""
    exp = w.expect(o)
    reads = w.reads(o)
    before = M.snapshot(w.path)
    with inject() as fault:
        err = None
        try:
            # (opening is part of the operation)
            w.do(w.open(), o)
        except Exception as e:
            err = e
    after = M.snapshot(w.path)
    if isinstance(err, AssertionError):
        raise err
    check(err is None or fault.fired, "%s: %s without a fault: %s", what, type(err).__name__, err)
    ctx.nontrivial |= bool(fault.fired)
    ctx.label("fault:" + ("raised" if err else "survived"), bool(fault.fired))
    changed = [k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0) and not os.path.basename(k).startswith(".z5tmp")]
    if reads:
        check(not changed, "%s: a read changed %s", what, M.snapdiff(before, after))
    else:
        t = tuple(w.target(o))
        check(all(k.startswith(t) for k in changed), "%s: changed %s", what, [k for k in changed if not k.startswith(t)][:5])
    if err is None:
        w.commit(exp)
        w.verify(what + " returned")
        return
    if o["op"] == "varlen":
        # (the chunk is unreadable through regions)
        return again_varlen(w, o, what)
    w.settle(o, exp, what + " raised")
    w.verify(what + " raised")
    if reads:
        w.do(w.open(), o)
        return
    # once the fault is gone the same operation succeeds
    f = w.open()
    if o["op"] == "newfile" and hasattr(fault, "args") and (fault.args[3] == -1 or fault.args[4]):
        shutil.rmtree(os.path.join(w.base, "new" + M.ext_of(w.fmt)), ignore_errors=True)
    if "at" in o:
        n = o["at"] + "new" + o["op"]
        args = getattr(fault, "args", (0,) * 5)
        if args[3] == -1 or args[4]:
            # the fault also hit the clean-up
            parts = n.split("/")
            for i in range(len(parts), 0, -1):
                p = os.path.join(w.path, *parts[:i])
                if os.path.isdir(p) and all(x.startswith(".z5tmp") for x in os.listdir(p)):
                    shutil.rmtree(p)
        if o["op"] != "require" and n in f:
            # what a failed creation leaves behind can be removed
            del f[n]
    w.do(f, o)
    w.commit(exp)
    w.verify(what + " raised and was repeated")


def again_varlen(w, o, what):
    ds = w.open()["d"]
    ds.write_chunk(tuple(o["c"]), M.make(o["d"], (7,), w.cfg["dtype"], 0), True)
    check(M.same(ds.read_chunk(tuple(o["c"])), M.make(o["d"], (7,), w.cfg["dtype"], 0)), "%s: varlen chunk", what)


def count_calls(w, o, mask):
    """The number of calls of the kind that the operation makes, found on a copy."""
    copy = os.path.join(w.base, "copy", os.path.basename(w.path))
    shutil.copytree(w.path, copy)
    try:
        with Fault(os.path.dirname(copy), mask) as c:
            w.do(w.open(copy), o)
        return c.seen
    finally:
        shutil.rmtree(os.path.dirname(copy))


def finish_varlen(w, o):
    """A varlen chunk is checked on its own and then replaced by an ordinary one."""
    ds = w.open()["d"]
    want = M.make(o["d"], (7,), w.cfg["dtype"], 0)
    got = ds.read_chunk(tuple(o["c"]))
    check(M.same(got, want), "varlen write returned, but the chunk is %s", None if got is None else M.diff(got, want))


def one(w, o, inject, ctx, what):
    if o["op"] != "varlen":
        return step(w, o, inject, ctx, what)
    cid = tuple(o["c"])
    old = w.data["d"][M.chunk_slices(w.cfg, cid)].copy()
    was = w.open()["d"].read_chunk(cid)
    want = M.make(o["d"], (7,), w.cfg["dtype"], 0)
    with inject() as fault:
        err = None
        try:
            w.do(w.open(), o)
        except Exception as e:
            err = e
    check(err is None or fault.fired, "%s: %s without a fault: %s", what, type(err).__name__, err)
    ctx.nontrivial |= bool(fault.fired)
    ds = w.open()["d"]
    got = ds.read_chunk(cid)
    new = got is not None and M.same(got, want)
    if err is None:
        check(new, "%s: varlen write returned, but the chunk is %s", what, None if got is None else M.diff(got, want))
    else:
        check(new or (got is None and was is None) or (got is not None and was is not None and M.same(got, was)), "%s: varlen write raised, and the chunk is neither the old nor the new one", what)
        w.do(w.open(), o)
        check(M.same(w.open()["d"].read_chunk(cid), want), "%s: varlen write repeated", what)
    # back to an ordinary chunk
    ds.write_chunk(cid, old)
    w.verify(what)


def run(case, ctx):
    w = World(case, ctx)
    ctx.label("fmt:" + w.fmt)
    ctx.label("threads", w.cfg["threads"] > 1)
    for i, o in enumerate(case["steps"]):
        if not w.applicable(o):
            continue
        if any(x["op"] == o["op"] and x.get("at") == o.get("at") for x in case["steps"][:i]) and o["op"] in ("create", "group", "require", "newfile"):
            continue
        mask = MASKS[o["mask"]]
        n = count_calls(w, o, mask)
        ctx.label("op:" + o["op"])
        ctx.label("kind:" + o["mask"], n > 0)
        nth = 1 + o["n"] % n if n else 1
        what = "step %d %s (%s call %d of %d fails with %d%s)" % (i, o["op"], o["mask"], nth, n, o["e"], " from then on" if o["pers"] else "")
        one(w, o, lambda: Fault(w.base if o['op'] == 'newfile' else w.path, mask, nth, o["e"], o["pers"]), ctx, what)


def sweep(case, ctx):
    """Every system call of one operation fails in turn."""
    o = case["steps"][0]
    w = World(case, ctx)
    if not w.applicable(o):
        return
    mask = WRITING if o["mask"] == "writing" else WRITING | READING
    n = count_calls(w, o, mask)
    ctx.label("op:" + o["op"])
    ctx.label("fmt:" + w.fmt)
    n = min(n, 60)
    pristine = os.path.join(w.base, "pristine")
    shutil.copytree(w.path, pristine)
    import copy
    state = copy.deepcopy((w.data, w.attrs, w.groups))
    for nth in range(1, n + 1):
        shutil.rmtree(w.path)
        shutil.copytree(pristine, w.path)
        w.data, w.attrs, w.groups = copy.deepcopy(state)
        one(w, o, lambda: Fault(w.base if o['op'] == 'newfile' else w.path, mask, nth, o["e"], o["pers"]), ctx, "%s (call %d of %d fails with %d%s)" % (o["op"], nth, n, o["e"], " from then on" if o["pers"] else ""))
    ctx.label("calls:%d" % (n // 10 * 10))


# real faults

@st.composite
def real_cases(draw):
    c = draw(cases())
    for o in c["steps"]:
        o["real"] = draw(st.sampled_from(["fsize", "fsize", "blocked", "blocked-dir", "meta"]))
        o["limit"] = draw(st.one_of(st.integers(0, 64), st.integers(0, 3000)))
    return c


class Limit:
    def __init__(self, n):
        self.n, self.fired = n, True

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))
        return self

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


class Block:
    """Something else lies in the place of a file while the operation runs."""

    def __init__(self, path, how):
        self.path, self.how, self.fired = path, how, True

    def __enter__(self):
        self.aside = None
        if os.path.lexists(self.path):
            self.aside = self.path + "~aside"
            os.rename(self.path, self.aside)
        if self.how == "file":
            os.makedirs(os.path.dirname(self.path), exist_ok=True)
            open(self.path, "w").close()
        else:
            os.makedirs(os.path.join(self.path, "in the way"))
        return self

    def __exit__(self, *a):
        if os.path.isdir(self.path):
            shutil.rmtree(self.path)
        elif os.path.lexists(self.path):
            os.remove(self.path)
        if self.aside:
            os.rename(self.aside, self.path)


def chunk_file(w, cid):
    """Path of the chunk or shard file."""
    cfg = w.cfg
    if w.fmt == "z3s":
        per = [s // c for s, c in zip(cfg["shards"], M.chunks_of(cfg))]
        cid = [i // p for i, p in zip(cid, per)]
    if w.fmt == "n5":
        key = "/".join(str(i) for i in reversed(cid))
    elif w.fmt == "z2":
        key = cfg["sep"].join(map(str, cid))
    elif cfg["enc"] == "default":
        key = "c/" + "/".join(map(str, cid))
    else:
        key = ".".join(map(str, cid))
    return os.path.join(w.path, "d", key)


def touched(w, o):
    if "c" in o:
        return [tuple(o["c"])]
    ch = M.chunks_of(w.cfg)
    return list(np.ndindex(*[(b - 1) // c - a // c + 1 for (a, b), c in zip(o["r"], ch)])), [a // c for (a, b), c in zip(o["r"], ch)]


def real(case, ctx):
    w = World(case, ctx)
    ctx.label("fmt:" + w.fmt)
    for i, o in enumerate(case["steps"]):
        if not w.applicable(o):
            continue
        if any(x["op"] == o["op"] and x.get("at") == o.get("at") for x in case["steps"][:i]) and o["op"] in ("create", "group", "require", "newfile"):
            continue
        what = "step %d %s under %s" % (i, o["op"], o["real"])
        if o["real"] == "fsize":
            one(w, o, lambda: Limit(o["limit"]), ctx, what + " of %d" % o["limit"])
            continue
        if o["real"] == "meta":
            # the attribute file cannot be written
            k = o["op"]
            if k not in ("attr", "attrs", "delattr", "gattr", "rattr") or w.fmt != "z2":
                continue
            sub = {"gattr": "g", "rattr": ""}.get(k, "d")
            p = os.path.join(w.path, sub, ".zattrs")
            must = True
            how = "dir"
        else:
            if "c" in o:
                cids = [tuple(o["c"])]
            elif "r" in o:
                ch = M.chunks_of(w.cfg)
                lo = [a // c for (a, b), c in zip(o["r"], ch)]
                cids = [tuple(a + b for a, b in zip(lo, x)) for x in np.ndindex(*[(b - 1) // c - a // c + 1 for (a, b), c in zip(o["r"], ch)])]
            else:
                continue
            cid = cids[o["n"] % len(cids)]
            p = chunk_file(w, cid)
            how = "dir"
            must = True
            if o["real"] == "blocked-dir":
                # (chunks that exist are absent while their directory is)
                if w.reads(o) or w.stored(cid) or os.path.dirname(p) == os.path.join(w.path, "d"):
                    continue
                p, how = os.path.dirname(p), "file"
            if w.reads(o) and o["op"] == "exists":
                continue
            after = w.expect(o)[0][M.chunk_slices(w.cfg, cid)]
            if how == "file" or o["op"] == "rm":
                # there is nothing to store, or nothing to remove
                must = o["op"] not in ("rm",) and (o["op"] == "varlen" or not M.same(after, np.full_like(after, w.fill)))
            if o["op"] == "rm" and how == "file":
                continue
        with Block(p, how):
            if not os.path.isdir(p) and not os.path.isfile(p):
                continue
            err = None
            try:
                w.do(w.open(), o)
            except Exception as e:
                err = e
        check(not isinstance(err, AssertionError), "%s: %s", what, err)
        check(err is not None or not must, "%s: %s returned though %s is blocked by a %s", what, o["op"], os.path.relpath(p, w.path), how)
        ctx.nontrivial = True
        ctx.label("real:" + o["real"])
        ctx.label("op:" + o["op"])
        if o["op"] == "varlen":
            w.do(w.open(), o)
            finish_varlen(w, o)
            c = M.chunk_slices(w.cfg, o["c"])
            w.open()["d"].write_chunk(tuple(o["c"]), w.data["d"][c].copy())
            w.verify(what)
            continue
        exp = w.expect(o)
        if not w.reads(o):
            w.settle(o, exp, what)
        w.verify(what)
        w.do(w.open(), o)
        w.commit(exp)
        w.verify(what + ", repeated")


SUBS = [Sub("faults", cases, run, quick=2000, batch=50, preload=True),
        Sub("sweep", sweeps, sweep, quick=240, batch=20, preload=True),
        Sub("real", real_cases, real, quick=1500, batch=50),
        CppSub("utils", "p18_utils", "faults", quick=1000),
        CppSub("callback", "p18_utils", "callback", quick=1500)]


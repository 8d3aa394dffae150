"""P19: pickled and re-opened handles denote the same objects."""
import copy
import os
import pickle
import struct
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv import picklechild as PC
from zv.core import Sub, check

TECHNIQUE = "stateful property testing: generated trees, handles reached in every way, pickle round-trips in this and in a second process, differential comparison of all observable properties"
RULE = ("A case builds a container (four formats) with groups nested up to four deep and datasets of generated configurations, opens it in a mode (a, r, r+, w, x), reaches an object (creation result, nested or step-wise path, parent of a child, "
        "items, visititems, require_*), pickles the handle (protocols 0-5, or deepcopy) and unpickles it here or in a second process, sometimes after further changes, and compares name, kind, parent, mode, format, metadata, attributes, keys, data and thread count with the original "
        "and with a fresh handle. Then it writes, sets attributes and creates groups and datasets through the copy and the original and looks through the other one; what both create must be stored the same way. Several handles (of different modes, of another container) are also pickled together and apart. "
        "Pickling, unpickling and failed unpickling (object gone, container gone) must not change a byte. Non-trivial: the object is nested, or the copy was used to write.")
ASSUMPTIONS = ["the working directory is the same on both sides if the path is relative"]

_child = None


def ask(blob, todo):
    global _child
    if _child is None or _child.poll() is not None:
        import z5py
        ext = os.path.dirname(os.path.dirname(os.path.abspath(z5py.__file__)))
        _child = subprocess.Popen([sys.executable, os.path.abspath(PC.__file__), ext], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    b = pickle.dumps((blob, todo))
    _child.stdin.write(struct.pack("<Q", len(b)) + b)
    _child.stdin.flush()
    n = struct.unpack("<Q", _child.stdout.read(8))[0]
    return pickle.loads(_child.stdout.read(n))


NAMES = ["a", "b", "c", "data", "x y", "\u00e4", "s0", "0", ".hidden", "a.b"]
HOW = ["created", "path", "steps", "parent", "items", "visit", "require", "slash"]


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(M.FMTS))
    objs = []
    for _ in range(draw(st.integers(1, 6))):
        p = [draw(st.sampled_from(NAMES)) for _ in range(draw(st.sampled_from([1, 1, 2, 3, 4])))]
        o = dict(path=p, ds=draw(st.booleans()))
        if o["ds"]:
            o["cfg"] = draw(M.configs(fmts=[fmt], max_ndim=3, threads=(1, 2, 5)))
            o["d"] = draw(M.pattern())
        if draw(st.booleans()):
            o["attrs"] = draw(st.dictionaries(M.attr_keys(), M.json_values(), max_size=3))
        objs.append(o)
    sep = draw(st.sampled_from([".", "/"]))
    return dict(fmt=fmt, objs=objs, sep=sep, mode=draw(st.sampled_from(["a", "a", "r", "r+", "w", "x"])), which=draw(st.integers(-1, 5)),
                how=draw(st.sampled_from(HOW)), proto=draw(st.sampled_from([0, 1, 2, 3, 4, 5, "deepcopy"])), other=draw(st.booleans()),
                between=draw(st.sampled_from([None, None, "write", "attr", "child", "gone", "file-gone"])), root=draw(st.sampled_from(["ext", "ext", "noext", "slash", "rel", "nested"])),
                use=[draw(st.sampled_from(["write", "attr", "create", "group"])) for _ in range(draw(st.integers(0, 3)))], s=draw(st.integers(0, 10 ** 6)))


def run(case, ctx):
    import z5py
    fmt = case["fmt"]
    zarr = fmt != "n5"
    base = ctx.dir()
    real = os.path.join(base, "x" + (M.ext_of(fmt) if case["root"] not in ("noext", "nested") or not zarr and case["root"] != "nested" else ""))
    if not zarr and case["root"] == "noext":
        real = os.path.join(base, "x")
    kw = dict(use_zarr_format=True, dimension_separator=case["sep"], zarr_format=3 if fmt in ("z3", "z3s") else 2) if zarr else {}
    path = real
    if case["root"] == "nested":
        # the container itself is a group of another one
        top = os.path.join(base, "x" + M.ext_of(fmt))
        z5py.File(top, "a", **kw).create_group("inner")
        real = path = os.path.join(top, "inner")
    elif case["root"] == "slash":
        path = real + "/"
    if zarr and case["root"] == "noext":
        # z5 refuses to create a zarr container without an extension: make one with it
        z5py.File(os.path.join(base, "y.zarr"), "a", **kw)
        os.rename(os.path.join(base, "y.zarr"), real)
    if case["root"] == "rel":
        os.chdir(base)
        path = os.path.basename(real)
    try:
        _run(case, ctx, path, real, base, {} if not zarr else dict(dimension_separator=case["sep"], zarr_format=kw["zarr_format"]), kw)
    finally:
        os.chdir("/")


def _run(case, ctx, path, real, base, kw_noformat, kw_full):
    import z5py
    fmt = case["fmt"]
    zarr = fmt != "n5"
    exists = os.path.exists(real)
    kw = kw_noformat if exists else kw_full
    mode = case["mode"]
    build_mode = mode if mode in ("w", "x") and not exists else "a"
    f = z5py.File(path, build_mode, **kw)
    made = {}
    handles = {}
    for o in case["objs"]:
        p = tuple(o["path"])
        if any(made.get(p[:i]) == "ds" for i in range(1, len(p) + 1)) or p in made or (o["ds"] and any(q[:len(p)] == p for q in made)):
            continue
        if o["ds"]:
            h = f.create_dataset("/".join(p), **M.create_kwargs(o["cfg"]))
            h[...] = M.make(o["d"], o["cfg"]["shape"], o["cfg"]["dtype"], M.fill_of(o["cfg"]))
            made[p] = "ds"
        else:
            h = f.create_group("/".join(p))
            made[p] = "group"
        for i in range(1, len(p)):
            made.setdefault(p[:i], "group")
        if o.get("attrs"):
            h.attrs.update(o["attrs"])
        handles[p] = h
    if mode in ("r", "r+") and build_mode == "a":
        f = z5py.File(path, mode, **kw)
    elif mode in ("w", "x"):
        mode = build_mode
    ps = sorted(made)
    k = case["which"]
    p = () if k < 0 or not ps else ps[k % len(ps)]
    how = case["how"]
    # reach the object
    if p == ():
        h = f
    elif how == "created" and p in handles and mode == build_mode:
        h = handles[p]
    elif how == "steps":
        h = f
        for x in p:
            h = h[x]
    elif how == "parent" and any(len(q) == len(p) + 1 and q[:len(p)] == p for q in ps):
        h = f["/".join([q for q in ps if len(q) == len(p) + 1 and q[:len(p)] == p][0])].parent
    elif how == "items":
        h = dict((f["/".join(p[:-1])] if len(p) > 1 else f).items())[p[-1]]
    elif how == "visit":
        found = {}
        f.visititems(lambda n, o: found.__setitem__(n, o))
        h = found["/".join(p)]
    elif how == "require":
        if made[p] == "group":
            h = f.require_group("/".join(p))
        else:
            h = f.require_dataset("/".join(p), shape=f["/".join(p)].shape, n_threads=3)
    elif how == "slash":
        h = f["/" + "//".join(p) + "/"]
    else:
        h = f["/".join(p)]
    isds = made.get(p) == "ds"
    if isds and case["s"] % 3 == 0:
        h.n_threads = 1 + case["s"] % 4
    want = PC.describe(h)
    check(want["name"] == "/" + "/".join(p), "%s of %s has the name %s", want["kind"], p, want["name"])

    def copied(o):
        if case["proto"] == "deepcopy":
            return copy.deepcopy(o)
        return pickle.loads(pickle.dumps(o, case["proto"]))
    before = M.snapshot(base)
    proto = 2 if case["proto"] == "deepcopy" else case["proto"]
    blob = pickle.dumps(h, proto)
    check(M.snapshot(base) == before, "pickling changed the container: %s", M.snapdiff(before, M.snapshot(base)))
    ctx.label("kind:" + want["kind"])
    ctx.label("fmt:" + fmt)
    ctx.label("mode:" + mode)
    ctx.label("root:" + case["root"])
    ctx.nontrivial = len(p) > 1
    between = case["between"]
    w = z5py.File(path, "a", **kw_noformat)
    obj = w["/".join(p)] if p else w
    if between == "write" and isds:
        obj[...] = M.make(dict(p="rand", s=case["s"]), obj.shape, obj.dtype)
    elif between == "attr":
        obj.attrs["later"] = case["s"]
    elif between == "child" and not isds:
        obj.require_group("later")
    elif between in ("gone", "file-gone") and (p or between == "file-gone"):
        # what was pickled does not exist any more: unpickling raises and does not bring anything back
        if between == "gone":
            del w["/".join(p)]
        else:
            os.rename(real, os.path.join(base, "moved"))
        before = M.snapshot(base)
        try:
            o = pickle.loads(blob)
        except Exception:
            o = None
        if o is not None and p:
            check(False, "a %s that does not exist any more was unpickled", want["kind"])
        check(M.snapshot(base) == before, "unpickling a handle of a missing object changed something: %s", M.snapdiff(before, M.snapshot(base)))
        st_, res = ask(blob, ("describe",))
        check(M.snapshot(base) == before, "unpickling a handle of a missing object in another process changed something: %s", M.snapdiff(before, M.snapshot(base)))
        ctx.label("gone")
        return
    want = PC.describe(h)
    before = M.snapshot(base)

    def same(what, got):
        for key in want:
            check(got[key] == want[key], "%s: %s is %r instead of %r", what, key, got[key] if key != "data" else "different", want[key] if key != "data" else "")
    c = pickle.loads(blob)
    same("unpickled", PC.describe(c))
    check(type(c) is type(h) or isinstance(h, z5py.File), "unpickled as %s", type(c))
    d = copied(h)
    same("copied", PC.describe(d))
    same("copy of the copy", PC.describe(copied(c)))
    # handles of one object with different rights, and of another container, travel together or one by one
    group = [("pickled", h)]
    for m in ("r", "a", "r+"):
        g = z5py.File(path, m, **kw_noformat)
        group.append((m, g["/".join(p)] if p else g))
    elsewhere = z5py.File(os.path.join(ctx.dir(), "x" + M.ext_of(fmt)), "a", **kw_full)
    elsewhere.attrs["elsewhere"] = 1
    group.append(("elsewhere", elsewhere))
    r = case["s"] % len(group)
    group = group[r:] + group[:r]
    if case["s"] % 2:
        group.reverse()
    descr = [PC.describe(o) for _, o in group]
    if case["s"] % 3:
        back = pickle.loads(pickle.dumps([o for _, o in group], proto))
    else:
        back = [pickle.loads(b) for b in [pickle.dumps(o, proto) for _, o in group]]
    ctx.label("several handles")
    for (m, _), was, o in zip(group, descr, back):
        now = PC.describe(o)
        for key in was:
            check(now[key] == was[key], "unpickled among others (%s): the %s handle's %s is %r instead of %r", [x for x, _ in group], m, key, now[key] if key != "data" else "different", was[key] if key != "data" else "")
    inside = (lambda todo: ask(blob, todo)) if case["root"] != "rel" else None
    if case["other"] and inside:
        st_, res = inside(("describe",))
        check(st_ == "ok", "unpickling in another process raised %s", res)
        same("in another process", res)
        ctx.label("other process")
    fresh = z5py.File(path, mode if mode in ("a", "r", "r+") else "a", **kw_noformat)
    fr = fresh["/".join(p)] if p else fresh
    if isds:
        fr.n_threads = h.n_threads
    if mode in ("w", "x"):
        want["mode"] = fr.file._handle.mode().mode()
    same("fresh handle", PC.describe(fr))
    check(M.snapshot(base) == before, "unpickling or looking changed the container: %s", M.snapdiff(before, M.snapshot(base)))

    # use both
    def opts(n):
        r = dict(shape=(5, 4), chunks=(2, 3), dtype="int16", data=np.arange(20, dtype="int16").reshape(5, 4) + n)
        if fmt == "z3s":
            r["shards"] = (4, 3)
        return r
    for n, u in enumerate(case["use"]):
        if isds != (u == "write") and u != "attr":
            continue
        via = [h, c, d, fr][(case["s"] >> n) % 4]
        away = case["other"] and inside and n % 2 and via in (c, d)
        if u == "write":
            s = tuple(slice((case["s"] + i) % x, x) for i, x in enumerate(h.shape))
            todo = ("write", s, M.make(dict(p="rand", s=case["s"] + n), [x.stop - x.start for x in s], h.dtype))
        elif u == "attr":
            todo = ("attr", "k%d" % n, [n, {"a": None}])
        elif u == "create":
            todo = ("create", "new%d" % n, opts(0))
        else:
            todo = ("group", "newgroup%d" % n)
        before = M.snapshot(base)
        if mode == "r":
            for o in (h, c, d, fr):
                try:
                    PC.act(o, todo)
                except Exception:
                    pass
                else:
                    check(False, "%s through a read-only %s was not refused", u, want["kind"])
            if inside:
                check(inside(todo)[0] == "error", "%s through a read-only %s was not refused in another process", u, want["kind"])
            check(M.snapshot(base) == before, "%s through a read-only handle changed %s", u, M.snapdiff(before, M.snapshot(base)))
            ctx.label("read-only refused")
            continue
        if away:
            st_, res = inside(todo)
            check(st_ == "ok", "%s in another process raised %s", u, res)
        else:
            PC.act(via, todo)
        ctx.nontrivial = True
        ds = [PC.describe(o) for o in (h, c, d, fr)]
        for x in ds[1:]:
            for key in x:
                if key != "mode":
                    check(x[key] == ds[0][key], "after %s through one handle, another one sees a different %s", u, key)
        check(u != "attr" or ds[0]["attrs"]["k%d" % n] == [n, {"a": None}], "the attribute is not there")
        check(u not in ("create", "group") or todo[1] in ds[0]["keys"], "the new object is not there")
        if u == "write":
            check(M.same(h[todo[1]], todo[2]), "the data written through one handle are not seen through another")
        if u == "create":
            # everyone creates the same kind of thing
            p0 = os.path.join(real, *p, todo[1])
            first = M.snapshot(p0)
            for j, o in enumerate((h, c, d)):
                o.create_dataset("same%d_%d" % (n, j), **opts(0))
                other = M.snapshot(os.path.join(real, *p, "same%d_%d" % (n, j)))
                check(via is fr or other == first, "a dataset created through the %s handle is stored differently: %s", ("original", "unpickled", "copied")[j], M.snapdiff(first, other))
            ctx.label("created")


SUBS = [Sub("pickle", cases, run, quick=1200, batch=50)]

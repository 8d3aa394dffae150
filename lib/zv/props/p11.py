"""P11: file modes grant exactly the documented rights."""
import pickle

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv.core import CppSub, Sub, check

RULE = ("open: a case is a container (absent or present; n5, zarr v2, zarr v3; root group with contents) and an opening mode with constructor arguments, checked for success or failure, for the recovered format, and "
        "for what changed on disk. rights: a case is a populated container, a mode and 4-16 operations (29 mutating, 20 reading kinds) through handles reached in different ways (root, nested, parent, "
        "require, unpickled); in mode r every mutating call has to raise and no file may change, in the other modes it has to work. rights_cpp, files_cpp: the same for 28 mutating and 8 reading calls of the C++ interface under five modes, "
        "and for createFile on present and absent containers. Non-trivial: the container exists and (rights) at least two mutating "
        "operations are attempted.")
TECHNIQUE = "stateful property-based testing: operations under each mode, with a snapshot of all files around every call as the oracle"

MODES = ["r", "r+", "a", "w", "w-", "x"]


@st.composite
def open_cases(draw):
    return dict(fmt=draw(st.sampled_from(["n5", "z2", "z3"])), present=draw(st.sampled_from([True, True, False])), mode=draw(st.sampled_from(MODES)),
                zf=draw(st.sampled_from([None, 2, 3])), use=draw(st.booleans()), cls=draw(st.sampled_from(["File", "File", "N5File", "ZarrFile"])),
                sep=draw(st.sampled_from([".", "/"])), default=draw(st.booleans()), pathlike=draw(st.booleans()), deep=draw(st.booleans()), n=draw(st.integers(0, 3)))


def run_open(case, ctx):
    import pathlib

    import z5py
    fmt, mode = case["fmt"], case["mode"]
    top = ctx.dir()
    root = top + ("/q/r" if case["deep"] else "") + "/x" + M.ext_of(fmt)
    data = np.arange(7, dtype="int32")
    if case["present"]:
        f = M.open_file(root, fmt, "a", case["sep"])
        f.attrs["k"] = "v"
        for i in range(case["n"]):
            f.create_group("g%d" % i).create_dataset("d", data=data + i, chunks=(3,), compression="gzip")
    before = M.snapshot(top)
    kw = {}
    if not (case["default"] and mode == "r"):
        kw["mode"] = mode
    cls = getattr(z5py, case["cls"])
    if case["cls"] == "N5File" and fmt != "n5" or case["cls"] == "ZarrFile" and fmt == "n5":
        cls = z5py.File
    if fmt != "n5" and cls is not z5py.N5File:
        if case["zf"]:
            kw["zarr_format"] = case["zf"]
        kw["dimension_separator"] = case["sep"]
    if case["use"] and cls is z5py.File:
        kw["use_zarr_format"] = fmt != "n5"
    fails = (mode in ("r", "r+") and not case["present"]) or (mode in ("w-", "x") and case["present"])
    p = pathlib.Path(root) if case["pathlike"] else root
    ctx.label("%s:%s" % (mode, "present" if case["present"] else "absent"))
    ctx.nontrivial = case["present"]
    try:
        f = cls(p, **kw)
    except Exception as e:
        check(fails, "%s(%s) raised %r", cls.__name__, kw, e)
        check(isinstance(e, OSError), "%s(%s) raised %r instead of an OSError", cls.__name__, kw, e)
        d = M.snapdiff(before, M.snapshot(top))
        check(not d, "a refused opening changed %s", d)
        return
    check(not fails, "%s(%s) did not raise (container present: %s)", cls.__name__, kw, case["present"])
    fresh = mode == "w" or not case["present"]
    # format and version: from disk where there is something, otherwise as requested
    want = {"n5": None, "z2": 2, "z3": 3}[fmt]
    if fresh and fmt != "n5":
        want = case["zf"] or 2
    check(f.is_zarr == (fmt != "n5"), "is_zarr is %s", f.is_zarr)
    check(f.filename == root and f.name == "/" and f.parent is f, "filename %r name %r", f.filename, f.name)
    if fresh:
        check(len(f) == 0 and list(f) == [], "a new container holds %s", list(f))
        check(set(f.attrs) <= {"n5"}, "a new container has the attributes %s", dict(f.attrs))
    else:
        d = M.snapdiff(before, M.snapshot(top))
        check(not d, "opening changed %s", d)
        check(sorted(f) == ["g%d" % i for i in range(case["n"])] and f.attrs["k"] == "v", "contents")
        for i in range(case["n"]):
            check(M.same(f["g%d/d" % i][...], data + i), "data")
    if mode == "r":
        return
    # writable: create something, its version has to be the one of the container
    f.attrs["m"] = 1
    g = f.create_group("new")
    ds = g.create_dataset("d", data=data, chunks=(4,), compression="raw")
    after = M.snapshot(root)
    have = {2: ".zgroup" in after, 3: "zarr.json" in after, None: "attributes.json" in after}
    check(have[want] and sum(have.values()) - (1 if have[None] and want == 2 else 0) == 1, "the container has the files %s, expected version %s", sorted(after), want)
    key = {2: "new/d/.zarray", 3: "new/d/zarr.json", None: "new/d/attributes.json"}[want]
    check(key in after, "a dataset created in the container has not its version: %s", sorted(after))
    f2 = z5py.File(root, "r")
    check(M.same(f2["new/d"][...], data) and f2.attrs["m"] == 1, "data written after opening in mode %s", mode)


MUT = ["create_group", "create_group_nested", "require_group", "create_dataset", "create_dataset_data", "require_dataset", "require_dataset_nested", "del_group", "del_dataset", "del_nested",
       "attr_file", "attr_group", "attr_ds", "attr_update", "attr_del", "attr_pop", "attr_del_file", "attr_update_group", "write", "scalar", "write_fill", "subarray", "direct", "chunk", "chunk_fill", "varlen", "remove_chunk", "impl_scalar", "handle_remove"]
READ = ["read", "read_chunk", "chunk_exists", "chunk_shape", "attrs", "keys", "visit", "get", "contains", "require_existing_group", "require_existing_ds", "props", "asarray", "read_direct", "pickle", "reopen",
        "read_empty", "varlen_read", "missing", "meta"]


@st.composite
def rights_cases(draw):
    cfg = draw(M.configs(max_ndim=3, maxsize={1: 12, 2: 8, 3: 5}))
    ops = [dict(op=draw(st.sampled_from(MUT + READ)), via=draw(st.sampled_from(["direct", "nested", "parent", "pickle", "require", "group"])), s=draw(st.integers(0, 999)))
           for _ in range(draw(st.integers(4, 16)))]
    return dict(cfg=cfg, mode=draw(st.sampled_from(["r", "r", "r", "r", "r+", "a"])), ops=ops, d=draw(M.pattern()))


def run_rights(case, ctx):
    import z5py
    cfg, mode = case["cfg"], case["mode"]
    dt = np.dtype(cfg["dtype"])
    root = ctx.path(M.ext_of(cfg["fmt"]))
    fill = M.fill_of(cfg)
    ref = M.make(case["d"], cfg["shape"], dt, fill)

    def populate():
        f = M.open_file(root, cfg["fmt"], "a", cfg.get("sep"))
        g = f.create_group("g")
        h = g.create_group("h")
        h.create_group("e")
        kw = M.create_kwargs(cfg)
        ds = h.create_dataset("d", **kw)
        ds[...] = ref
        ds.attrs["k"] = [1]
        g.attrs["k"] = 2
        f.attrs["k"] = 3
        f.create_dataset("top", data=np.arange(4, dtype="uint8"), chunks=(2,), compression="raw")
        if cfg["fmt"] == "n5":
            f.create_dataset("var", shape=(8,), chunks=(4,), dtype="int32", compression="gzip").write_chunk((0,), np.arange(6, dtype="int32"), True)
    populate()

    def reopen():
        return M.open_file(root, cfg["fmt"], mode, cfg.get("sep"))
    f = reopen()
    tried = 0
    nchunks = M.grid(cfg)

    def group(via):
        if via == "nested":
            return f["g"]["h"]
        if via == "parent":
            return f["g/h/d"].parent
        if via == "pickle":
            return pickle.loads(pickle.dumps(f["g/h"]))
        if via == "require":
            return f.require_group("g/h")
        return f["g/h"]

    def dataset(via):
        if via == "pickle":
            return pickle.loads(pickle.dumps(f["g/h/d"]))
        if via == "require":
            return f.require_dataset("g/h/d", shape=tuple(cfg["shape"]), dtype=dt)
        ds = group(via)["d"]
        ds.n_threads = cfg["threads"]
        return ds
    for i, o in enumerate(case["ops"]):
        k, s = o["op"], o["s"]
        if k in ("varlen", "varlen_read") and cfg["fmt"] != "n5":
            continue
        rng = np.random.default_rng(s)
        what = "op %d %s through %s in mode %s" % (i, k, o["via"], mode)
        before = M.snapshot(root)
        cid = [int(rng.integers(n)) for n in nchunks]
        cs = M.chunk_slices(cfg, cid)
        cshape = tuple(x.stop - x.start for x in cs) if cfg["fmt"] == "n5" else tuple(M.chunks_of(cfg))
        if k in MUT:
            tried += 1
            g, ds = group(o["via"]), dataset(o["via"])
            name = "n%d" % i
            one = np.ones(cfg["shape"], dtype=dt)
            calls = dict(
                create_group=lambda: g.create_group(name),
                create_group_nested=lambda: f.create_group("g/" + name + "/x"),
                require_group=lambda: g.require_group(name),
                create_dataset=lambda: g.create_dataset(name, shape=(4,), chunks=(2,), dtype="uint8"),
                create_dataset_data=lambda: g.create_dataset(name, data=np.arange(3)),
                require_dataset=lambda: g.require_dataset(name, shape=(4,), chunks=(2,), dtype="uint8"),
                require_dataset_nested=lambda: f.require_dataset("g/%s/x" % name, shape=(4,), chunks=(2,), dtype="uint8"),
                del_group=lambda: g.__delitem__("e"),
                del_dataset=lambda: g.__delitem__("d"),
                del_nested=lambda: f.__delitem__("g/h/d"),
                attr_file=lambda: f.attrs.__setitem__("new", s),
                attr_group=lambda: g.attrs.__setitem__("new", s),
                attr_ds=lambda: ds.attrs.__setitem__("new", s),
                attr_update=lambda: ds.attrs.update(new=s),
                attr_del=lambda: ds.attrs.__delitem__("k"),
                attr_del_file=lambda: f.attrs.__delitem__("k"),
                attr_update_group=lambda: f["g"].attrs.update(new=s, k=3),
                attr_pop=lambda: f["g"].attrs.pop("k"),
                write=lambda: ds.__setitem__(Ellipsis, one),
                scalar=lambda: ds.__setitem__(cs, 1),
                write_fill=lambda: ds.__setitem__(Ellipsis, np.full(cfg["shape"], fill, dtype=dt)),
                subarray=lambda: ds.write_subarray([0] * len(cfg["shape"]), one),
                direct=lambda: ds.write_direct(one),
                chunk=lambda: ds.write_chunk(cid, np.ones(cshape, dtype=dt)),
                chunk_fill=lambda: ds.write_chunk(cid, np.full(cshape, fill, dtype=dt)),
                varlen=lambda: f["var"].write_chunk((1,), np.arange(s % 9 + 1, dtype="int32"), True),
                remove_chunk=lambda: ds._impl.remove_chunk(cid),
                impl_scalar=lambda: ds.__setitem__((slice(0, 1),) * len(cfg["shape"]), 1.0),
                handle_remove=lambda: f["g"]._handle.remove())
            try:
                calls[k]()
            except Exception as e:
                check(mode == "r", "%s raised %r", what, e)
                check(isinstance(e, (ValueError, RuntimeError, OSError)), "%s raised %r", what, e)
            else:
                check(mode != "r", "%s did not raise", what)
                ctx.label("done:" + k)
                after = M.snapshot(root)
                if k in ("create_group", "create_group_nested", "require_group", "create_dataset", "create_dataset_data", "require_dataset", "require_dataset_nested"):
                    check(any(name in p for p in after), "%s created nothing", what)
                elif k.startswith("attr"):
                    check(M.snapdiff(before, after), "%s changed nothing", what)
                elif k in ("write", "subarray", "direct"):
                    check(M.same(dataset("direct")[...], one), "%s: data", what)
                elif k == "write_fill":
                    check((M.same(dataset("direct")[...], np.full(cfg["shape"], fill, dtype=dt))), "%s: data", what)
                elif k in ("scalar", "chunk"):
                    check((dataset("direct")[cs] == 1).all(), "%s: data", what)
                # start over
                import shutil
                shutil.rmtree(root)
                populate()
                f = reopen()
                continue
        else:
            ds = dataset(o["via"])
            if k == "read":
                check(M.same(ds[...], ref) and M.same(ds[cs], ref[cs]), "%s: %s", what, M.diff(ds[...], ref))
            elif k == "read_chunk":
                got = ds.read_chunk(cid)
                want = ref[cs]
                if got is None:
                    check(M.same(want, np.full(want.shape, fill, dtype=dt)), "%s gives None", what)
                else:
                    check(M.same(got[tuple(slice(0, n) for n in want.shape)], want), "%s", what)
            elif k == "chunk_exists":
                check(ds.chunk_exists(cid) == (ds.read_chunk(cid) is not None), "%s", what)
            elif k == "chunk_shape":
                check(tuple(ds.get_chunk_shape(cid)) == tuple(x.stop - x.start for x in cs), "%s gives %s", what, ds.get_chunk_shape(cid))
            elif k == "attrs":
                check(ds.attrs["k"] == [1] and f["g"].attrs["k"] == 2 and f.attrs.get("k") == 3, "%s", what)
            elif k == "keys":
                check(sorted(f) == sorted(["g", "top"] + (["var"] if cfg["fmt"] == "n5" else [])) and sorted(f["g/h"]) == ["d", "e"], "%s", what)
            elif k == "visit":
                seen = []
                f.visititems(lambda n, x: seen.append(n))
                check("g/h/d" in seen and "g/h/e" in seen, "%s: %s", what, seen)
            elif k == "get":
                check(f.get("nope") is None and isinstance(f["g"].get("h"), z5py.Group), "%s", what)
            elif k == "contains":
                check("g/h/d" in f and "g/x" not in f, "%s", what)
            elif k == "require_existing_group":
                check(f.require_group("g/h").name == "/g/h" and group(o["via"]).require_group("e").name == "/g/h/e", "%s", what)
            elif k == "require_existing_ds":
                x = f.require_dataset("g/h/d", shape=tuple(cfg["shape"]), dtype=dt, chunks=tuple(M.chunks_of(cfg)))
                check(M.same(x[...], ref), "%s", what)
            elif k == "props":
                check(ds.shape == tuple(cfg["shape"]) and ds.chunks == tuple(M.chunks_of(cfg)) and ds.dtype == dt and ds.compression and isinstance(ds.compression_opts, dict), "%s", what)
            elif k == "asarray":
                check(M.same(np.asarray(ds), ref), "%s", what)
            elif k == "read_direct":
                x = np.zeros(cfg["shape"], dtype=dt)
                ds.read_direct(x)
                check(M.same(x, ref), "%s", what)
            elif k == "pickle":
                x = pickle.loads(pickle.dumps(f))
                check(x._handle.mode().mode() == mode and M.same(x["g/h/d"][...], ref), "%s", what)
            elif k == "reopen":
                f = reopen()
            elif k == "read_empty":
                check(ds[(slice(0, 0),) * len(cfg["shape"])].size == 0, "%s", what)
            elif k == "varlen_read":
                check(M.same(f["var"].read_chunk((0,)), np.arange(6, dtype="int32")), "%s", what)
            elif k == "missing":
                try:
                    f["nope"]
                except KeyError:
                    pass
                else:
                    check(False, "%s", what)
            else:
                check(f.is_zarr == (cfg["fmt"] != "n5") and f.name == "/" and f._handle.mode().mode() == mode, "%s", what)
        d = M.snapdiff(before, M.snapshot(root))
        check(not d, "%s changed %s", what, d)
        ctx.label(mode + ":" + k)
    ctx.nontrivial = tried >= 2


SUBS = [Sub("open", open_cases, run_open, quick=3000, batch=100),
        Sub("rights", rights_cases, run_rights, quick=3000, batch=50),
        # the same through the C++ interface
        CppSub("rights_cpp", "p11_rights", "rights", quick=1500),
        CppSub("files_cpp", "p11_rights", "files", quick=1500)]

"""P23: z5 opens whichever container it is given in its own format."""
import json
import os
import pathlib
import shutil

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv.core import Sub, check
from zv.props import p07

TECHNIQUE = "property-based testing over container formats x path spellings x ways of opening, with a model of the stored objects and byte-wise snapshots around refused requests"
RULE = ("open: a container (n5, zarr v2 with either separator, v3, sharded) with nested groups, datasets and attributes, at a path with a canonical, upper-case, missing, foreign or contradicting suffix (moved there after creation), optionally with the minimal metadata other writers leave "
        "(no n5 version, no dimension_separator, no root attributes), is opened through 1-5 generated ways: spelling (trailing slashes, relative, ./, a/../, symlink, PathLike, sub-directory as container), class (File, N5File, ZarrFile), mode, use_zarr_format, zarr_format, dimension_separator. "
        "A way that does not contradict the path must recover format, kinds, properties, attributes and data, and what is written or created through it must be there through all others, in the format of the container; "
        "refused: ways that contradict the suffix, the contents or need another version (modes a, r, r+, w, x included) must raise and change nothing. Non-trivial: a non-canonical path or options that differ from the stored ones.")
ASSUMPTIONS = ["the suffix decides the format of new containers; for existing ones whose suffix contradicts the contents, z5 may open them in the stored format or refuse",
               "zarr containers without a zarr suffix can only be opened, not created (documented inference rule)"]

SUFFIX = {True: [".zarr", ".zr", ".ZARR", ".Zr"], False: [".n5", ".N5"]}
SPELL = ["plain", "slash", "slashes", "rel", "dot", "dotdot", "pathlike", "symlink", "relslash"]


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(M.FMTS))
    objs = []
    for p in draw(st.lists(st.sampled_from(["d", "g", "g/d", "g/h", "g/h/d", "e/f"]), min_size=1, max_size=4, unique=True)):
        o = dict(path=p, kind=draw(st.sampled_from(["ds", "ds", "group"])) if p not in ("g", "g/h") else "group")
        if o["kind"] == "ds":
            o["cfg"] = draw(M.configs(fmts=[fmt] if fmt != "z3s" else ["z3s", "z3"], max_ndim=3))
            o["d"] = draw(M.pattern())
        o["attrs"] = draw(st.dictionaries(st.sampled_from(["x", "y", "shape"]), st.integers(0, 9), max_size=2))
        objs.append(o)
    ways = [dict(spell=draw(st.sampled_from(SPELL)), cls=draw(st.sampled_from(["File", "File", "own", "mode-class"])), mode=draw(st.sampled_from(["r", "a", "r+"])), uz=draw(st.sampled_from([None, None, "right"])),
                 zf=draw(st.sampled_from([None, 2, 3])), sep=draw(st.sampled_from([None, ".", "/"])), do=draw(st.sampled_from(["look", "look", "write", "create", "group", "attr"])), d=draw(M.pattern()),
                 sub=draw(st.booleans())) for _ in range(draw(st.integers(1, 5)))]
    return dict(fmt=fmt, sep=draw(st.sampled_from([".", "/"])), objs=objs, ways=ways, ext=draw(st.sampled_from(["own", "own", "own", "none", "none", "other", "contra"])), k=draw(st.integers(0, 1000)),
                minimal=draw(st.booleans()), rootattrs=draw(st.booleans()))


def expect_opts(cfg):
    return cfg


def spelled(path, how, base):
    d, n = os.path.split(path)
    if how == "slash":
        return path + "/"
    if how == "slashes":
        return path + "///"
    if how == "rel":
        os.chdir(d)
        return n
    if how == "relslash":
        os.chdir(d)
        return "./" + n + "/"
    if how == "dot":
        return os.path.join(d, ".", n)
    if how == "dotdot":
        os.makedirs(os.path.join(base, "other"), exist_ok=True)
        return os.path.join(base, "other", "..", os.path.relpath(path, base))
    if how == "pathlike":
        return pathlib.Path(path)
    if how == "symlink":
        l = os.path.join(base, "link" + os.path.relpath(path, base).replace("/", "-") + os.path.splitext(n)[1])
        if not os.path.islink(l):
            os.symlink(path, l)
        return l
    return path


def build(case, base):
    """Make the container; returns its path and the model."""
    import z5py
    fmt = case["fmt"]
    path = os.path.join(base, "x" + M.ext_of(fmt))
    f = M.open_file(path, fmt, "a", case["sep"])
    objs = {}
    for o in case["objs"]:
        p = o["path"]
        for q in [p.rsplit("/", k)[0] for k in range(p.count("/"), 0, -1)]:
            objs.setdefault(q, dict(kind="group", attrs={}))
        if o["kind"] == "ds":
            cfg = dict(o["cfg"], sep=case["sep"])
            h = f.create_dataset(p, **M.create_kwargs(cfg))
            a = M.make(o["d"], cfg["shape"], cfg["dtype"], M.fill_of(cfg))
            h[...] = a
            objs[p] = dict(kind="ds", cfg=cfg, a=a, attrs={})
        else:
            h = f.require_group(p)
            objs.setdefault(p, dict(kind="group", attrs={}))
        h.attrs.update(o["attrs"])
        objs[p]["attrs"] = dict(o["attrs"])
    rootattrs = {}
    if case["rootattrs"]:
        f.attrs["root"] = rootattrs["root"] = [1, 2]
    if case["minimal"]:
        # what other writers leave out
        for d, _, fs in os.walk(path):
            for n in fs:
                q = os.path.join(d, n)
                if n == ".zarray" and case["sep"] == ".":
                    j = json.load(open(q))
                    j.pop("dimension_separator", None)
                    json.dump(j, open(q, "w"))
                elif n == "attributes.json":
                    j = json.load(open(q))
                    if j.pop("n5", None) is not None:
                        if not j:
                            os.remove(q)
                        else:
                            json.dump(j, open(q, "w"))
                elif n == "zarr.json":
                    j = json.load(open(q))
                    if j.get("attributes") == {}:
                        j.pop("attributes")
                        json.dump(j, open(q, "w"))
    zarr = fmt != "n5"
    k = case["k"]
    ext = case["ext"]
    if ext == "own":
        new = "x" + SUFFIX[zarr][k % len(SUFFIX[zarr])]
    elif ext == "none":
        new = ["x", "y z", "\u00e4", "x.d", ".x"][k % 5]
    elif ext == "other":
        new = ["x.h5", "a.n5.b", "a.zarr.b", "x.n55", "x.zarr2"][k % 5]
    else:
        new = "x" + SUFFIX[not zarr][k % len(SUFFIX[not zarr])]
    new = os.path.join(base, new)
    if new != path:
        os.rename(path, new)
    return new, objs, rootattrs


def run(case, ctx):
    base = ctx.dir()
    try:
        _run(case, ctx, base)
    finally:
        os.chdir("/")


def _run(case, ctx, base):
    import z5py
    fmt = case["fmt"]
    zarr = fmt != "n5"
    version = {"n5": None, "z2": 2, "z3": 3, "z3s": 3}[fmt]
    path, objs, rootattrs = build(case, base)
    ctx.label("fmt:" + fmt)
    ctx.label("ext:" + case["ext"])
    news = 0
    contra = case["ext"] == "contra"

    def look(f, what, prefix=""):
        check(f.is_zarr == zarr, "%s: is_zarr is %s", what, f.is_zarr)
        if not prefix:
            got = dict(f.attrs.items())
            if not zarr:
                got.pop("n5", None)
            check(got == rootattrs, "%s: attributes %s instead of %s", what, got, rootattrs)
        for p, o in objs.items():
            if not p.startswith(prefix):
                continue
            p = p[len(prefix):]
            if not p:
                continue
            check(p in f, "%s: %s is missing", what, p)
            h = f[p]
            check(f.is_sub_group(p) == (o["kind"] == "group") == isinstance(h, z5py.Group), "%s: %s is taken for a %s", what, p, type(h).__name__)
            check(dict(h.attrs.items()) == o["attrs"], "%s: attributes of %s: %s", what, p, dict(h.attrs.items()))
            check(h.is_zarr == zarr, "%s: %s is_zarr is %s", what, p, h.is_zarr)
            if o["kind"] == "ds":
                p07.props(h, o["cfg"], p, what)
                check(M.same(h[...], o["a"]), "%s: data of %s: %s", what, p, M.diff(h[...], o["a"]))
        top = {p[len(prefix):].split("/")[0] for p in objs if p.startswith(prefix) and p != prefix}
        check(set(f.keys()) == top, "%s: keys %s instead of %s", what, sorted(f.keys()), sorted(top))

    for i, w in enumerate(case["ways"]):
        target, prefix = path, ""
        sub = [p for p, o in objs.items() if o["kind"] == "group"]
        if w["sub"] and sub:
            prefix = sub[case["k"] % len(sub)] + "/"
            target = os.path.join(path, prefix.rstrip("/"))
        sp = spelled(target, w["spell"], base)
        kw = {}
        cls = {"File": z5py.File, "own": z5py.ZarrFile if zarr else z5py.N5File, "mode-class": z5py.File}[w["cls"]]
        if cls is z5py.File:
            if w["uz"] == "right":
                kw["use_zarr_format"] = zarr
            if w["zf"]:
                kw["zarr_format"] = w["zf"]
            if w["sep"]:
                kw["dimension_separator"] = w["sep"]
        elif cls is z5py.ZarrFile:
            if w["zf"]:
                kw["zarr_format"] = w["zf"]
            if w["sep"]:
                kw["dimension_separator"] = w["sep"]
        what = "way %d: %s(%r, %r, %s)" % (i, cls.__name__, str(sp)[-30:], w["mode"], kw)
        before = M.snapshot(base)
        noncanon = case["ext"] != "own" or w["spell"] != "plain" or (w["zf"] or version) != version or bool(prefix)
        ctx.nontrivial |= noncanon
        try:
            f = cls(sp, w["mode"], **kw)
        except Exception as e:
            check(M.snapshot(base) == before, "%s raised and changed %s", what, M.snapdiff(before, M.snapshot(base)))
            # a suffix that contradicts the contents may be refused
            check(contra and not prefix, "%s raised %s: %s", what, type(e).__name__, e)
            ctx.label("contradicting suffix refused")
            continue
        check(M.snapshot(base) == before, "%s changed %s", what, M.snapdiff(before, M.snapshot(base)))
        look(f, what, prefix)
        check(M.snapshot(base) == before, "%s: looking changed %s", what, M.snapdiff(before, M.snapshot(base)))
        ctx.label("spell:" + w["spell"])
        ctx.label("sub-directory", bool(prefix))
        if w["mode"] == "r" or w["do"] == "look":
            continue
        dss = [p for p, o in objs.items() if o["kind"] == "ds" and p.startswith(prefix)]
        if w["do"] == "write" and dss:
            p = dss[case["k"] % len(dss)]
            o = objs[p]
            o["a"] = M.make(w["d"], o["a"].shape, o["a"].dtype, M.fill_of(o["cfg"]))
            f[p[len(prefix):]][...] = o["a"]
        elif w["do"] == "create":
            n = "new%d" % news
            news += 1
            cfg = dict(fmt="z3" if fmt == "z3s" else fmt, shape=[5, 7], chunks=[2, 3], dtype="int32", codec="raw", copts={}, fill=0, threads=1, enc="default")
            a = np.arange(35, dtype="int32").reshape(5, 7) + i
            h = f.create_dataset(n, data=a, chunks=(2, 3), compression="raw")
            objs[prefix + n] = dict(kind="ds", cfg=cfg, a=a, attrs={})
            meta = {"n5": "attributes.json", "z2": ".zarray"}.get(fmt, "zarr.json")
            there = sorted(x for x in os.listdir(os.path.join(target, n)) if x in (".zarray", "zarr.json", "attributes.json"))
            check(there == [meta], "%s: a new dataset has the metadata files %s", what, there)
        elif w["do"] == "group":
            n = "ng%d" % news
            news += 1
            f.create_group(n)
            objs[prefix + n] = dict(kind="group", attrs={})
            there = sorted(x for x in os.listdir(os.path.join(target, n)) if x in (".zgroup", "zarr.json", "attributes.json"))
            want = {"n5": [], "z2": [".zgroup"]}.get(fmt, ["zarr.json"])
            check(there == want or fmt == "n5" and there == ["attributes.json"], "%s: a new group has the metadata files %s", what, there)
        elif w["do"] == "attr":
            ps = [p for p in objs if p.startswith(prefix) and p != prefix]
            if ps:
                p = ps[case["k"] % len(ps)]
                f[p[len(prefix):]].attrs["z"] = i
                objs[p]["attrs"]["z"] = i
        look(f, what + " after " + w["do"], prefix)
    try:
        f = z5py.File(path, "r")
    except Exception:
        check(contra, "can not be opened at the end")
        return
    look(f, "at the end")


REF = ["uz", "class", "new-uz", "new-class", "zversion", "n5version", "missing-r", "missing-r+", "exists-x", "empty-dir", "new-zarr-noext", "v1", "file"]


@st.composite
def bad_cases(draw):
    c = draw(cases())
    c["ext"] = draw(st.sampled_from(["own", "own", "none", "other"]))
    c["ref"] = draw(st.sampled_from(REF))
    c["mode"] = draw(st.sampled_from(["a", "r", "r+", "w", "x", "w-"]))
    c["spell"] = draw(st.sampled_from(SPELL))
    c["n5v"] = draw(st.sampled_from(["5.0.0", "10.0.0", "5", "42.1", "100.2.3"]))
    c["zv"] = draw(st.sampled_from([1, 4, 5, 30, 0, -2]))
    return c


def refused(case, ctx):
    base = ctx.dir()
    try:
        _refused(case, ctx, base)
    finally:
        os.chdir("/")


def _refused(case, ctx, base):
    import z5py
    fmt = case["fmt"]
    zarr = fmt != "n5"
    r, mode = case["ref"], case["mode"]
    # (a path without a suffix is zarr if it holds zarr metadata)
    path, objs, _ = build(case, base)
    cls, kw = z5py.File, {}
    other = z5py.N5File if zarr else z5py.ZarrFile
    if r == "uz":
        kw["use_zarr_format"] = not zarr
    elif r == "class":
        cls = other
    elif r in ("new-uz", "new-class"):
        # a new container whose suffix contradicts the request
        path = os.path.join(base, "new" + SUFFIX[zarr][case["k"] % len(SUFFIX[zarr])])
        if r == "new-uz":
            kw["use_zarr_format"] = not zarr
        else:
            cls = other
        if case["spell"] == "symlink":
            case["spell"] = "plain"
    elif r == "new-zarr-noext":
        path = os.path.join(base, "fresh")
        kw["use_zarr_format"] = True
        if case["spell"] == "symlink":
            case["spell"] = "plain"
    elif r == "zversion" or r == "v1":
        if not zarr:
            return
        n = os.path.join(path, ".zgroup" if fmt == "z2" else "zarr.json")
        j = json.load(open(n))
        j["zarr_format"] = case["zv"]
        json.dump(j, open(n, "w"))
        if mode == "w":
            mode = "a"
    elif r == "n5version":
        if zarr:
            return
        n = os.path.join(path, "attributes.json")
        j = json.load(open(n)) if os.path.exists(n) else {}
        j["n5"] = case["n5v"]
        json.dump(j, open(n, "w"))
        if mode == "w":
            mode = "a"
    elif r in ("missing-r", "missing-r+"):
        path = os.path.join(base, "nope" + SUFFIX[zarr][0])
        mode = r[8:]
        if case["spell"] == "symlink":
            case["spell"] = "plain"
    elif r == "exists-x":
        mode = ["x", "w-"][case["k"] % 2]
    elif r == "empty-dir":
        # a directory with a zarr suffix that is no zarr container
        path = os.path.join(base, "e" + SUFFIX[True][case["k"] % 4])
        os.makedirs(os.path.join(path, "d"))
        if mode == "w":
            mode = "a"
    elif r == "file":
        # the path is a file
        path = os.path.join(base, "f" + SUFFIX[zarr][0])
        open(path, "w").write("{}")
    sp = spelled(path, case["spell"], base)
    before = M.snapshot(base)
    try:
        cls(sp, mode, **kw)
    except Exception:
        pass
    else:
        if r == "file" and mode == "w":
            return         # truncated, like an existing container
        check(False, "%s: %s(%r, %r, %s) was not refused", r, cls.__name__, str(sp)[-30:], mode, kw)
    check(M.snapshot(base) == before, "%s: the refused %s(%r, %r, %s) changed %s", r, cls.__name__, str(sp)[-30:], mode, kw, M.snapdiff(before, M.snapshot(base)))
    ctx.label("refused:" + r)
    ctx.label("mode:" + mode)
    ctx.nontrivial = True


# creating: the suffix decides, for every spelling

@st.composite
def new_cases(draw):
    z = draw(st.booleans())
    return dict(zarr=z, ext=draw(st.sampled_from(SUFFIX[z])) if z or draw(st.booleans()) else draw(st.sampled_from(["", ".data", ".n55", ".d"])), spell=draw(st.sampled_from([s for s in SPELL if s != "symlink"])), mode=draw(st.sampled_from(["a", "w", "x", "w-"])),
                uz=draw(st.booleans()), zf=draw(st.sampled_from([2, 3])), sep=draw(st.sampled_from([".", "/"])), cls=draw(st.booleans()), replace=draw(st.sampled_from([None, None, "n5", "z2", "z3"])), again=draw(st.sampled_from(SPELL)))


def create(case, ctx):
    import z5py
    base = ctx.dir()
    try:
        zarr = case["zarr"]
        path = os.path.join(base, "x" + case["ext"])
        mode = case["mode"]
        if case["replace"]:
            # mode w replaces what is there, whatever it is
            mode = "w"
            old = os.path.join(base, "old" + M.ext_of(case["replace"]))
            g = M.open_file(old, case["replace"], "a")
            g.create_dataset("old", data=np.arange(4, dtype="uint8"), chunks=(2,))
            if zarr or case["ext"] == ".n5" or case["ext"] == ".N5" or case["replace"] == "n5":
                os.rename(old, path)
        sp = spelled(path, case["spell"], base)
        kw = {}
        cls = z5py.File
        if case["cls"] and (zarr or case["ext"].lower() == ".n5"):
            cls = z5py.ZarrFile if zarr else z5py.N5File
        elif case["uz"]:
            kw["use_zarr_format"] = zarr
        if zarr:
            kw.update(zarr_format=case["zf"], dimension_separator=case["sep"])
        f = cls(sp, mode, **kw)
        a = np.arange(12, dtype="int16").reshape(3, 4)
        f.create_dataset("g/d", data=a, chunks=(2, 3), compression="raw")
        f.attrs["k"] = 1
        files = os.listdir(path)
        check(("zarr.json" in files) == (zarr and case["zf"] == 3) and (".zgroup" in files) == (zarr and case["zf"] == 2), "new %s %s: %s", case["ext"], kw, files)
        check(zarr or json.load(open(os.path.join(path, "attributes.json"))).get("n5"), "new n5 container without version")
        check(sorted(x for x in files if x in ("g", "old")) == ["g"], "new container holds %s", files)
        chunk = {True: "0.0" if case["sep"] == "." else "0/0", False: "0/0"}[zarr] if not (zarr and case["zf"] == 3) else "c/0/0"
        check(os.path.exists(os.path.join(path, "g", "d", chunk)), "chunk key layout: no %s", chunk)
        h = z5py.File(spelled(path, case["again"], base), "r")
        check(h.is_zarr == zarr and M.same(h["g/d"][...], a) and h.attrs["k"] == 1, "opened as %s", case["again"])
        ctx.label("ext:" + case["ext"])
        ctx.label("replace", bool(case["replace"]))
        ctx.nontrivial = case["spell"] != "plain" or bool(case["replace"])
    finally:
        os.chdir("/")


SUBS = [Sub("open", cases, run, quick=1200, batch=50),
        Sub("refused", bad_cases, refused, quick=1000, batch=50),
        Sub("create", new_cases, create, quick=800, batch=50)]

"""P10: the hierarchy behaves as a tree of groups and datasets inside its root."""
import json
import os

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv.core import Sub, check

RULE = ("A case is a container (n5, zarr v2, zarr v3) that lies four directories deep between sentinel files, and a history of 6-30 operations (create / require groups and datasets at plain and nested paths in "
        "several spellings, lookups, membership, listings, visits with and without early stop, deletions, re-opens, names that would escape from the container) issued through the root or any group "
        "handle, replayed on a tree in memory. After each operation the whole hierarchy, the group metadata and the difference of the files on disk are compared. Non-trivial: at least three "
        "successful structural changes, a nested path and a deletion or refused request.")
TECHNIQUE = "stateful model-based property testing: hierarchy histories replayed on a tree in memory, with a snapshot of all files around every operation"
ASSUMPTIONS = ["the container holds nothing but what z5 created", "'.', '..', names of metadata files and names with a zero byte are refused in every format",
               "containment is exercised within a scratch directory: '..' at most three levels up from four, absolute names only below the scratch directory"]

NAMES = ["a", "b", "c", "a", "b", "ab", "a b", "\u00e4", "x.y", ".h", "0", "0.0", "c0", "c", "A", "-", "a.n5", "n.zarr", "zarr", "..."]
ESCAPES = ["..", "../s", "../../s", "../../../s/t", ".", "a/../b", "a/../../s", "./a", "a/./b", "a/..", ".zgroup", ".zarray", ".zattrs", "zarr.json", "attributes.json", "a/zarr.json", "zarr.json/a",
           "a\0b", "ABS", "ABS2", "LONG"]


@st.composite
def names(draw):
    parts = [draw(st.sampled_from(NAMES)) for _ in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3])))]
    style = draw(st.sampled_from(["plain", "plain", "plain", "trail", "double"]))
    return dict(parts=parts, style=style)


def spell(n):
    s = ("//" if n["style"] == "double" else "/").join(n["parts"])
    return s + "/" if n["style"] == "trail" else s


OPS = ["mkgroup"] * 4 + ["mkds"] * 4 + ["reqgroup", "reqgroup", "reqds", "get", "has", "list", "visit", "visit", "del", "del", "del", "reopen", "escape", "escape", "empty"]


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(["n5", "z2", "z3"]))
    ops = []
    for _ in range(draw(st.integers(6, 30))):
        k = draw(st.sampled_from(OPS))
        o = dict(op=k, base=draw(st.sampled_from(["root", "root", "some", "cached"])), b=draw(st.integers(0, 50)))
        if k in ("mkgroup", "mkds", "reqgroup", "reqds", "get", "has"):
            o["n"] = draw(names())
            # half of the time a name that exists (chosen by number among those below the base)
            o["ex"] = draw(st.booleans()) and k not in ("mkgroup", "mkds")
            o["ei"] = draw(st.integers(0, 100))
            o["sub"] = draw(st.sampled_from([0, 0, 0, 0, 1]))
        if k == "del":
            o["n"] = draw(names())
            o["ex"] = draw(st.integers(0, 4)) > 0
            o["ei"] = draw(st.integers(0, 100))
        if k == "escape":
            o["e"] = draw(st.sampled_from(ESCAPES))
            o["what"] = draw(st.sampled_from(["mkgroup", "mkds", "reqgroup", "reqds", "get", "has", "del"]))
        if k == "visit":
            o["stop"] = draw(st.sampled_from([0, 0, 1, 2, 4]))
            o["ret"] = draw(st.sampled_from([10, "stop", 0, False, "", []]))   # anything but None stops
        ops.append(o)
    return dict(fmt=fmt, ops=ops, sep=draw(st.sampled_from([".", "/"])))


class Node:
    def __init__(self, kind, data=None):
        self.kind, self.data, self.kids = kind, data, {}

    def walk(self, prefix=()):
        for k in sorted(self.kids):
            yield prefix + (k,), self.kids[k]
            yield from self.kids[k].walk(prefix + (k,))

    def find(self, parts):
        n = self
        for p in parts:
            if n is None or n.kind != "g":
                return None
            n = n.kids.get(p)
        return n


def compare(g, node, z5py, fmt, path, deep=True):
    """The z5 group against the model, recursively."""
    ks = list(g.keys())
    check(sorted(ks) == sorted(node.kids), "%s has the members %s, expected %s", g.name, sorted(ks), sorted(node.kids))
    check(len(g) == len(node.kids), "len(%s) = %d", g.name, len(g))
    for k, n in node.kids.items():
        check(k in g, "%r not in %s", k, g.name)
        h = g[k]
        check(isinstance(h, z5py.Group) == (n.kind == "g") and isinstance(h, z5py.Dataset) == (n.kind == "d"), "%s/%s is a %s", g.name, k, type(h))
        check(g.is_sub_group(k) == (n.kind == "g"), "is_sub_group(%r) of %s", k, g.name)
        want = g.name.rstrip("/") + "/" + k
        check(h.name == want, "the name of %s is %r", want, h.name)
        check(h.parent is g, "the parent of %s", want)
        p = path + "/" + k
        if n.kind == "g":
            if fmt == "z2":
                check(os.path.exists(p + "/.zgroup") and json.load(open(p + "/.zgroup")) == {"zarr_format": 2}, "%s has no valid group metadata", want)
            elif fmt == "z3":
                check(os.path.exists(p + "/zarr.json"), "%s has no group metadata", want)
                j = json.load(open(p + "/zarr.json"))
                check(j.get("zarr_format") == 3 and j.get("node_type") == "group", "group metadata of %s: %s", want, j)
            compare(h, n, z5py, fmt, p)
        else:
            got = h[...]
            check(M.same(got, n.data), "%s: %s", want, M.diff(got, n.data))


def run(case, ctx):
    import z5py
    fmt = case["fmt"]
    top = ctx.dir()
    deep = os.path.join(top, "p1", "p2", "p3", "p4")
    os.makedirs(deep)
    d = top
    for part in ("p1", "p2", "p3", "p4", None):
        with open(d + "/sentinel", "w") as fh:
            fh.write("keep")
        os.makedirs(d + "/s/t" if part != "p1" else d + "/abs/in", exist_ok=True)
        with open((d + "/s" if part != "p1" else d + "/abs") + "/keep", "w") as fh:
            fh.write("keep")
        if part:
            d = os.path.join(d, part)
    root = deep + "/x" + M.ext_of(fmt)
    inner = os.path.relpath(root, top) + "/"
    f = M.open_file(root, fmt, "a", case["sep"])
    if fmt == "z2":
        check(json.load(open(root + "/.zgroup")) == {"zarr_format": 2}, "root metadata")
    elif fmt == "z3":
        j = json.load(open(root + "/zarr.json"))
        check(j.get("zarr_format") == 3 and j.get("node_type") == "group", "root metadata")
    tree = Node("g")
    cached = {(): f}
    counter = 0
    changes = refused = deleted = nested = 0

    def dskw(base, name, require=False):
        nonlocal counter
        counter += 1
        data = np.full((3,), counter, dtype="uint16")
        kw = dict(chunks=(2,), compression="raw")
        if require:
            return data, base.require_dataset(name, shape=(3,), dtype="uint16", data=data, **kw)
        return data, base.create_dataset(name, data=data, **kw)
    for i, o in enumerate(case["ops"]):
        k = o["op"]
        groups = [()] + [p for p, n in tree.walk() if n.kind == "g"]
        if o["base"] == "root":
            bp = ()
            base = f
        else:
            bp = groups[o["b"] % len(groups)]
            if o["base"] == "cached" and bp in cached:
                base = cached[bp]
            else:
                base = f["/".join(bp)] if bp else f
                cached[bp] = base
        bnode = tree.find(bp)
        what = "op %d %s on %s" % (i, k, "/" + "/".join(bp))
        before = M.snapshot(top)
        allowed = None       # prefix of the paths that may appear or vanish
        gone = None

        def target():
            if o.get("ex"):
                below = [p for p, n in bnode.walk()]
                if below:
                    parts = list(below[o["ei"] % len(below)])
                    if o.get("sub"):
                        parts += ["0"]
                    return parts, spell(dict(parts=parts, style=o["n"]["style"]))
            return o["n"]["parts"], spell(o["n"])

        def blocked(parts):
            """Is a proper prefix of the path a dataset?"""
            for n in range(1, len(parts)):
                x = bnode.find(parts[:n])
                if x is not None and x.kind == "d":
                    return True
            return False

        def put(parts, kind, data=None):
            n = bnode
            for p in parts[:-1]:
                n = n.kids.setdefault(p, Node("g"))
            n.kids[parts[-1]] = Node(kind, data)
        if k in ("mkgroup", "mkds", "reqgroup", "reqds"):
            parts, name = target()
            what += " " + repr(name)
            old = bnode.find(parts)
            ok = not blocked(parts) and (old is None or (k == "reqgroup" and old.kind == "g") or (k == "reqds" and old.kind == "d"))
            try:
                if k == "mkgroup":
                    res = base.create_group(name)
                elif k == "reqgroup":
                    res = base.require_group(name)
                elif k == "mkds":
                    data, res = dskw(base, name)
                else:
                    data, res = dskw(base, name, True)
            except Exception as e:
                check(not ok, "%s raised %r", what, e)
                check(isinstance(e, (KeyError, TypeError, ValueError)), "%s raised %r", what, e)
                refused += 1
                allowed = []
                # a refused nested request leaves at most nothing: the blocked path exists already
            else:
                check(ok, "%s was accepted", what)
                if old is None:
                    put(parts, "g" if k.endswith("group") else "d", None if k.endswith("group") else data)
                    changes += 1
                    nested += len(parts) > 1
                    first = next(n for n in range(1, len(parts) + 1) if "/".join((root,) + bp + tuple(parts[:n]))[len(top) + 1:] + "/" not in before)
                    allowed = [inner + "/".join(bp + tuple(parts[:first])) + "/"]
                else:
                    allowed = []
                check(isinstance(res, z5py.Group if k.endswith("group") else z5py.Dataset), "%s returned a %s", what, type(res))
                check(res.name == "/" + "/".join(bp + tuple(parts)), "%s has the name %r", what, res.name)
                check(res.parent.name == "/" + "/".join(bp + tuple(parts[:-1])), "%s has the parent %r", what, res.parent.name)
                check(res.file is f or res.file.filename == f.filename, "%s: file", what)
                if isinstance(res, z5py.Group):
                    cached[bp + tuple(parts)] = res
            ctx.label(k)
        elif k in ("get", "has"):
            parts, name = target()
            what += " " + repr(name)
            node = bnode.find(parts)
            check((name in base) == (node is not None), "%s: membership", what)
            if k == "get":
                try:
                    res = base[name]
                except KeyError:
                    check(node is None, "%s raised a KeyError", what)
                else:
                    check(node is not None, "%s found a %s", what, type(res))
                    check(res.name == "/" + "/".join(bp + tuple(parts)), "%s has the name %r", what, res.name)
                    chain, x = [], res
                    while x.parent is not x:
                        x = x.parent
                        chain.append(x.name)
                    check(chain == ["/" + "/".join(bp + tuple(parts[:n])) for n in range(len(parts) - 1, -1, -1)] +
                          ["/" + "/".join(bp[:n]) for n in range(len(bp) - 1, -1, -1)], "%s has the ancestors %s", what, chain)
                miss = base.get(name, 17)
                check((miss == 17 if isinstance(miss, int) else False) == (node is None), "%s: get with a default", what)
            check(base.is_sub_group(name) == (node is not None and node.kind == "g"), "%s: is_sub_group", what)
            allowed = []
        elif k == "list":
            want = sorted(bnode.kids)
            check(sorted(base) == want and sorted(base.keys()) == want and sorted(n for n, _ in base.items()) == want, "%s: %s instead of %s", what, sorted(base), want)
            check(sorted(h.name for h in base.values()) == ["/" + "/".join(bp + (n,)) for n in want], "%s: values", what)
            allowed = []
        elif k == "visit":
            want = {"/".join(p): n.kind for p, n in bnode.walk()}
            seen = []

            def func(name, obj):
                check(name not in [s[0] for s in seen], "%s visited %r twice", what, name)
                seen.append((name, "g" if isinstance(obj, z5py.Group) else "d"))
                check(obj.name == "/" + "/".join(bp + tuple(name.split("/"))), "%s: %r for the name %r", what, obj.name, name)
                par = name.rpartition("/")[0]
                check(not par or par in [s[0] for s in seen], "%s visited %r before its group", what, name)
                if o["stop"] and len(seen) == o["stop"]:
                    return o["ret"]
            res = base.visititems(func)
            if o["stop"] and len(want) >= o["stop"]:
                check(res is o["ret"] and len(seen) == o["stop"], "%s: stopping after %d gave %r after %d calls", what, o["stop"], res, len(seen))
                check(all(want.get(n) == kd for n, kd in seen), "%s visited %s", what, seen)
            else:
                check(res is None and dict(seen) == want, "%s visited %s instead of %s", what, seen, want)
            ctx.label("visit-nested", any("/" in w for w in want))
            allowed = []
        elif k == "del":
            parts, name = target()
            what += " " + repr(name)
            node = bnode.find(parts)
            try:
                del base[name]
            except KeyError as e:
                check(node is None, "%s raised %r", what, e)
                refused += 1
                allowed = []
            else:
                check(node is not None, "%s did not raise", what)
                del bnode.find(parts[:-1]).kids[parts[-1]]
                full = bp + tuple(parts)
                gone = inner + "/".join(full) + "/"
                for c in list(cached):
                    if c[:len(full)] == full:
                        del cached[c]
                deleted += 1
                changes += 1
            ctx.label("del")
        elif k == "empty":
            # the empty path is the group itself
            check("" in base and "/" in base, "%s: '' is not in it", what)
            check(base[""] is base and base.require_group("") is base, "%s: the empty path", what)
            for fn in (lambda: base.create_group(""), lambda: base.create_dataset("", shape=(1,), dtype="uint8"), lambda: base.__delitem__("")):
                try:
                    fn()
                except Exception:
                    pass
                else:
                    check(False, "%s: the empty name was accepted", what)
            allowed = []
        elif k == "escape":
            e = o["e"]
            absolute = e.startswith("ABS")
            name = {"ABS": top + "/abs/in", "ABS2": top + "/abs/new/y", "LONG": "x" * 300}.get(e, e)
            parts = [p for p in name.split("/") if p]
            w = o["what"]
            what += " %s(%r)" % (w, name)
            try:
                if w == "mkgroup":
                    base.create_group(name)
                elif w == "reqgroup":
                    base.require_group(name)
                elif w == "mkds":
                    data, _ = dskw(base, name)
                elif w == "reqds":
                    data, _ = dskw(base, name, True)
                elif w == "get":
                    base[name]
                elif w == "has":
                    check((name in base) == (absolute and bnode.find(parts) is not None), "%s", what)
                else:
                    del base[name]
            except AssertionError:
                raise
            except Exception as ex:
                check(not absolute or w in ("get", "del", "mkgroup", "mkds", "reqds", "reqgroup"), "%s raised %r", what, ex)
                if absolute:
                    old = bnode.find(parts)
                    if w == "reqgroup":
                        check(blocked(parts) or (old is not None and old.kind == "d"), "%s raised %r", what, ex)
                    elif w in ("get", "del"):
                        check(old is None, "%s raised %r", what, ex)
                    else:
                        check(old is not None or blocked(parts), "%s raised %r", what, ex)
                refused += 1
                allowed = []
            else:
                if w == "has":
                    allowed = []
                else:
                    # paths are relative to the group, a leading slash included
                    check(absolute, "%s was accepted", what)
                    old = bnode.find(parts)
                    if w == "get":
                        check(old is not None, "%s was found", what)
                        allowed = []
                    elif w == "del":
                        check(old is not None, "%s was deleted", what)
                        del bnode.find(parts[:-1]).kids[parts[-1]]
                        full = bp + tuple(parts)
                        gone = inner + "/".join(full) + "/"
                        for c in list(cached):
                            if c[:len(full)] == full:
                                del cached[c]
                    else:
                        check(old is None or w.startswith("req"), "%s was accepted", what)
                        if old is None:
                            put(parts, "g" if w.endswith("group") else "d", None if w.endswith("group") else data)
                        allowed = [inner + "/".join(bp + (parts[0],)) + "/"]
            ctx.label("escape:" + w)
        else:
            f = M.open_file(root, fmt, "a", case["sep"])
            cached = {(): f}
            allowed = []
        after = M.snapshot(top)
        out = [p for p in set(before) | set(after) if not p.startswith(inner[:-1]) and before.get(p, 0) != after.get(p, 0)]
        check(not out, "%s changed paths outside of the container: %s", what, out)
        ch = [p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0)]
        if gone is not None:
            check(all(p.startswith(gone) for p in ch), "%s also changed %s", what, [p for p in ch if not p.startswith(gone)][:5])
            check(not any(p.startswith(gone) for p in after), "%s left %s", what, [p for p in after if p.startswith(gone)][:5])
        else:
            check(all(any(p.startswith(a) for a in allowed) for p in ch), "%s changed %s", what, [p for p in ch if not any(p.startswith(a) for a in allowed)][:5])
        compare(base, bnode, z5py, fmt, "/".join((root,) + bp))
    f = M.open_file(root, fmt, "r")
    compare(f, tree, z5py, fmt, root)
    ctx.nontrivial = changes >= 3 and nested >= 1 and (deleted or refused) > 0


SUBS = [Sub("history", cases, run, quick=3000, batch=50)]

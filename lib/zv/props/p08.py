"""P08: numpy-style indexing and assignment agree with numpy."""
import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv.core import Sub, check

RULE = ("A case is a shape (1-5 dims), dtype, chunking, fill value and a list of 4-12 index expressions (integers and slices with bounds inside, on and beyond the edges, of either sign; numpy integers; "
        "ellipsis in any position; fewer axes) for reads, scalar and array assignments, and direct copies, each compared with the same expression on a numpy array; the whole "
        "array is compared after every assignment. Non-trivial: some index mixes an integer or ellipsis with a proper sub-slice and an assignment takes place. In the reject "
        "sub-check every case has an unsupported index or an unfitting value.")
TECHNIQUE = "differential property-based testing against numpy indexing on a mirrored array"
ASSUMPTIONS = ["documented differences are part of the oracle: a slice that starts before the first element is empty; an assigned array has to fit the selection up to leading and trailing singleton axes "
               "(other broadcasting may be refused, but if it is accepted it has to agree with numpy)",
               "booleans and floats as indices are outside of the domain"]


def axis_index(n):
    """Integers and slices for an axis of length n, as JSON."""
    edge = st.one_of(st.integers(-n - 2, n + 2), st.sampled_from([-n, -n - 1, 0, 1, n - 1, n, n + 1, -1, 2 ** 40, -2 ** 40]))
    sl = st.tuples(st.just("s"), st.one_of(st.none(), edge), st.one_of(st.none(), edge), st.sampled_from([None, None, 1]))
    ins = st.tuples(st.just("s"), st.integers(0, n - 1), st.integers(1, n), st.just(None))
    return st.one_of(st.tuples(st.just("i"), st.integers(-n, n - 1), st.sampled_from(["py", "np", "py"])), sl, sl, ins, ins, st.just(("s", None, None, None)))


@st.composite
def index(draw, shape):
    nd = len(shape)
    k = draw(st.integers(0, nd))
    use = draw(st.sampled_from(["full", "full", "ell", "less", "single"]))
    if use == "single":
        if draw(st.integers(0, 3)) == 0:
            return dict(single=True, items=[["e"]])
        return dict(single=True, items=[list(draw(axis_index(shape[0])))])
    if use == "full":
        return dict(single=False, items=[list(draw(axis_index(n))) for n in shape])
    if use == "less":
        return dict(single=False, items=[list(draw(axis_index(n))) for n in shape[:k]])
    a = draw(st.integers(0, k))
    left, right = a, k - a
    items = [list(draw(axis_index(n))) for n in shape[:left]] + [["e"]] + [list(draw(axis_index(n))) for n in shape[nd - right:nd]]
    return dict(single=False, items=items)


def build(ix):
    res = []
    for it in ix["items"]:
        if it[0] == "e":
            res.append(Ellipsis)
        elif it[0] == "i":
            res.append(np.int64(it[1]) if it[2] == "np" else it[1])
        else:
            res.append(slice(it[1], it[2], it[3]))
    return res[0] if ix["single"] else tuple(res)


def numpy_index(ix, shape):
    """The index with the documented difference: a start before the first element selects nothing."""
    items = [it for it in ix["items"]]
    pos = 0
    n_given = sum(1 for it in items if it[0] != "e")
    res = []
    for it in items:
        if it[0] == "e":
            res.append(Ellipsis)
            pos += len(shape) - n_given
            continue
        n = shape[pos]
        if it[0] == "i":
            res.append(int(it[1]))
        elif it[1] is not None and it[1] < -n:
            res.append(slice(0, 0))
        else:
            res.append(slice(it[1], it[2], it[3]))
        pos += 1
    return res[0] if ix["single"] else tuple(res)


def unsqueezed(ix, shape):
    """Shape of the selection with the integer axes kept."""
    items = ix["items"]
    if not any(it[0] == "e" for it in items):
        items = items + [["e"]]
    n_given = sum(1 for it in items if it[0] != "e")
    res, pos = [], 0
    for it in items:
        if it[0] == "e":
            k = len(shape) - n_given
            res += shape[pos:pos + k]
            pos += k
            continue
        n = shape[pos]
        if it[0] == "i":
            res.append(1)
        elif it[1] is not None and it[1] < -n:
            res.append(0)
        else:
            res.append(len(range(*slice(it[1], it[2], it[3]).indices(n))))
        pos += 1
    return res


def strip(s):
    s = list(s)
    while len(s) > 0 and s[0] == 1:
        s.pop(0)
    while len(s) > 0 and s[-1] == 1:
        s.pop()
    return s


VALUES = ["exact", "exact", "exact", "lead", "trail", "strip", "squeezed", "list", "cast", "bcast", "one", "other", "split", "merge", "reverse", "insert"]


@st.composite
def cases(draw):
    cfg = draw(M.configs(codecs=["raw", "gzip", "blosc"], opts=False))
    ops = []
    for _ in range(draw(st.integers(4, 12))):
        k = draw(st.sampled_from(["get", "get", "get", "set", "set", "setscalar", "direct", "wdirect"]))
        o = dict(op=k)
        if k in ("direct", "wdirect"):
            o["r"] = draw(M.regions(cfg["shape"]))
            o["off"] = [draw(st.integers(0, 2)) for _ in cfg["shape"]]
            o["default"] = draw(st.booleans())
        else:
            o["ix"] = draw(index(cfg["shape"]))
        if k == "set":
            o["v"] = draw(st.sampled_from(VALUES))
        if k == "setscalar":
            o["x"] = draw(st.one_of(M.scalars(cfg["dtype"]), st.floats(-100, 100), st.integers(-300, 300), st.sampled_from([2 ** 63, 2 ** 64, -2 ** 63 - 1, 1e300, "nan", "inf"])))
            o["how"] = draw(st.sampled_from(["py", "np"]))
        o["d"] = draw(M.pattern())
        ops.append(o)
    return dict(cfg=cfg, ops=ops)


def run(case, ctx):
    cfg = case["cfg"]
    dt = np.dtype(cfg["dtype"])
    shape = cfg["shape"]
    f, ds = M.create(ctx.path(M.ext_of(cfg["fmt"])), cfg)
    fill = M.fill_of(cfg)
    ref = M.make(dict(p="ramp", s=3), shape, dt)
    ds[...] = ref
    mixed = assigned = False
    for i, o in enumerate(case["ops"]):
        k = o["op"]
        if k in ("get", "set", "setscalar"):
            zi, ni = build(o["ix"]), numpy_index(o["ix"], shape)
            sel = ref[ni]
            kinds = set(it[0] for it in o["ix"]["items"])
            if len(kinds) > 1 and np.size(sel) and np.size(sel) < ref.size:
                mixed = True
                ctx.label("mixed-index")
            ctx.label("ellipsis", "e" in kinds)
            ctx.label("empty-selection", np.size(sel) == 0)
            ctx.label("scalar-result", np.ndim(sel) == 0)
        if k == "get":
            got = ds[zi]
            check(np.shape(got) == np.shape(sel), "ds[%r] has shape %s, numpy gives %s", zi, np.shape(got), np.shape(sel))
            if Ellipsis not in (ni if isinstance(ni, tuple) else (ni,)):
                # with an ellipsis numpy wraps a single element into an array of zero dimensions
                check(isinstance(got, np.ndarray) == isinstance(sel, np.ndarray), "ds[%r] is a %s, numpy gives a %s", zi, type(got), type(sel))
            check(got.dtype == dt, "ds[%r] has dtype %s", zi, got.dtype)
            check(M.same(got, sel), "ds[%r]: %s", zi, M.diff(got, sel))
            if isinstance(got, np.ndarray) and got.size:
                # a copy: changing it does not reach the dataset
                got[...] = 0
            continue
        if k == "setscalar":
            v = M.fill_arg(o["x"])
            if o["how"] == "np":
                v = np.float64(v) if isinstance(v, float) else (np.int64(v) if -2 ** 63 <= v < 2 ** 63 else v)
            exact = None
            x = float(v) if isinstance(v, (float, np.floating)) else int(v)
            if dt.kind == "f":
                with np.errstate(all="ignore"):
                    exact = dt.type(x)
            else:
                ii = np.iinfo(dt)
                if isinstance(x, int):
                    exact = dt.type(x) if ii.min <= x <= ii.max else None
                elif x == x and abs(x) < 2 ** 53 and ii.min <= int(x) <= ii.max:
                    exact = dt.type(int(x))
            try:
                ds[zi] = v
            except Exception as e:
                check(exact is None or np.size(sel) == 0, "ds[%r] = %r raised %r", zi, v, e)
                ctx.label("scalar-refused")
            else:
                if exact is not None:
                    ref[ni] = exact
                elif np.size(sel) and not (isinstance(v, np.generic)):
                    # a numpy scalar may be cast like numpy casts it, a python number that does not fit has to be refused
                    check(False, "ds[%r] = %r was accepted for %s", zi, v, dt)
                elif np.size(sel):
                    ref[ni] = np.asarray(ds[zi])
                    with np.errstate(all="ignore"):
                        want = np.array([v]).astype(dt)[0]
                    if isinstance(v, np.integer):
                        check((np.asarray(ds[zi]) == want).all(), "ds[%r] = %r gives %r", zi, v, ds[zi])
                assigned = True
        elif k == "set":
            us = unsqueezed(o["ix"], shape)
            v = o["v"]
            vs = list(us)
            if v == "lead":
                vs = [1, 1] + vs
            elif v == "trail":
                vs = vs + [1]
            elif v == "strip":
                vs = strip(vs) or [1]
            elif v == "squeezed":
                vs = list(np.shape(sel)) or [1]
            elif v == "bcast":
                vs = [1 if j % 2 else x for j, x in enumerate(vs)]
            elif v == "one":
                vs = [1]
            elif v == "split":
                # the number of elements fits, the shape does not
                vs = [y for x in vs for y in next(([q, x // q] for q in (2, 3, 5) if x > q and x % q == 0), [x])]
            elif v == "merge":
                vs = vs[:-2] + [int(np.prod(vs[-2:]))]
            elif v == "reverse":
                vs = vs[::-1]
            elif v == "insert":
                vs = vs[:1] + [1] + vs[1:]
            elif v == "other":
                vs = [x + (1 if j == 0 else 0) for j, x in enumerate(vs)]
            a = M.make(o["d"], vs, dt, fill)
            arr = a.tolist() if v == "list" else a
            if v == "cast" and dt.kind != "f" and dt.itemsize <= 4:
                arr = a.astype("int64")
            n_sel = int(np.prod(us))
            must = a.size == n_sel and strip(vs) == strip(us) and n_sel > 0
            try:
                ds[zi] = arr
            except Exception as e:
                check(not must and n_sel, "ds[%r] (shape %s) = array of shape %s raised %r", zi, us, vs, e)
                ctx.label("array-refused")
            else:
                if n_sel:
                    if must:
                        want = a.reshape(us)
                    else:
                        try:
                            want = np.array(np.broadcast_to(a, np.shape(sel))).reshape(us)
                        except ValueError:
                            check(False, "ds[%r] (shape %s) = array of shape %s was accepted", zi, us, vs)
                    full = ref[tuple(slice(None) for _ in shape)]
                    ref[ni] = want.reshape(np.shape(sel))
                    assigned = True
                    ctx.label("value:" + v)
        elif k == "direct":
            s = M.sl(o["r"])
            if o["default"]:
                got = np.zeros(shape, dtype=dt)
                ds.read_direct(got)
                check(M.same(got, ref), "read_direct: %s", M.diff(got, ref))
            else:
                rs = M.rshape(o["r"])
                big = np.full([a + b + 2 for a, b in zip(rs, o["off"])], 77, dtype=dt)
                want = big.copy()
                d = tuple(slice(x, x + n) for x, n in zip(o["off"], rs))
                want[d] = ref[s]
                ds.read_direct(big, s, d)
                check(M.same(big, want), "read_direct(%s, %s): %s", s, d, M.diff(big, want))
            continue
        else:
            rs = M.rshape(o["r"])
            if o["default"]:
                a = M.make(o["d"], shape, dt, fill)
                ds.write_direct(a)
                ref[...] = a
            else:
                a = M.make(o["d"], [x + y + 1 for x, y in zip(rs, o["off"])], dt, fill)
                d = tuple(slice(x, x + n) for x, n in zip(o["off"], rs))
                ds.write_direct(a, d, M.sl(o["r"]))
                ref[M.sl(o["r"])] = a[d]
            assigned = True
        got = ds[...]
        check(M.same(got, ref), "after op %d %s: %s", i, {x: y for x, y in o.items() if x != "d"}, M.diff(got, ref))
    got = np.asarray(ds)
    check(M.same(got, ref), "np.asarray(ds): %s", M.diff(got, ref))
    got = ds.__array__(dtype="float64")
    check(got.dtype == np.float64 and M.same(got, ref.astype("float64")), "ds.__array__(float64)")
    check(len(ds) == shape[0] and ds.size == ref.size and ds.ndim == ref.ndim, "len / size / ndim")
    ctx.nontrivial = mixed and assigned


BADIX = ["step", "step-neg", "list", "mask", "array", "oob", "oob-neg", "two-ell", "too-many", "string", "none", "bytes", "nested"]
BADVAL = ["string", "object", "too-big", "too-small", "dict", "none", "complex", "ragged", "wrong-ndim"]


@st.composite
def bad_cases(draw):
    cfg = draw(M.configs(codecs=["raw", "gzip"], opts=False))
    c = dict(cfg=cfg, k=draw(st.integers(0, 1000)), set=draw(st.booleans()))
    if draw(st.booleans()):
        c["ix"] = draw(st.sampled_from(BADIX))
    else:
        c["val"] = draw(st.sampled_from(BADVAL))
        c["r"] = draw(M.regions(cfg["shape"]))
    return c


def reject(case, ctx):
    cfg = case["cfg"]
    dt = np.dtype(cfg["dtype"])
    shape = cfg["shape"]
    nd = len(shape)
    root = ctx.path(M.ext_of(cfg["fmt"]))
    f, ds = M.create(root, cfg)
    ref = M.make(dict(p="ramp", s=3), shape, dt)
    ds[...] = ref
    snap = M.snapshot(root)
    k = case["k"]
    ctx.nontrivial = True
    if "ix" in case:
        b = case["ix"]
        ax = k % nd
        ix = [slice(None)] * nd
        if b == "step":
            ix[ax] = slice(None, None, 2 + k % 3)
        elif b == "step-neg":
            ix[ax] = slice(None, None, -1 - k % 2)
        elif b == "list":
            ix[ax] = [0]
        elif b == "mask":
            ix = [np.ones(shape, dtype=bool)]
        elif b == "array":
            ix[ax] = np.array([0])
        elif b == "oob":
            ix[ax] = [shape[ax], shape[ax] + k, 2 ** 63, 2 ** 64, 2 ** 70][k % 5]
        elif b == "oob-neg":
            ix[ax] = [-shape[ax] - 1, -shape[ax] - 1 - k, -2 ** 63, -2 ** 64][k % 4]
        elif b == "two-ell":
            ix = [Ellipsis] + ix[:nd - 1] + [Ellipsis]
        elif b == "too-many":
            ix = ix + [[0], [slice(None)], [slice(None), Ellipsis]][k % 3]
        elif b == "string":
            ix[ax] = "a"
        elif b == "none":
            ix[ax] = None
        elif b == "bytes":
            ix[ax] = b"0"
        else:
            ix[ax] = (0,)
        ix = tuple(ix) if len(ix) > 1 or k % 2 or b == "nested" else ix[0]
        ctx.label("index:" + b)
        try:
            if case["set"]:
                ds[ix] = 1
            else:
                got = ds[ix]
        except Exception as e:
            check(isinstance(e, (TypeError, ValueError, IndexError, RuntimeError, OverflowError)), "ds[%r]: %r", ix, e)
        else:
            check(False, "ds[%r]%s was accepted for shape %s", ix, " = 1" if case["set"] else "", shape)
    else:
        b = case["val"]
        rs = M.rshape(case["r"])
        a = np.ones(rs, dtype=dt)
        if b == "string":
            v = ["abc", np.full(rs, "x")][k % 2]
        elif b == "object":
            # numpy takes None for a nan
            v = [np.full(rs, None if dt.kind != "f" else {}, dtype=object), object()][k % 2]
        elif b == "too-big":
            s = list(rs)
            s[k % nd] += 1 + k % 3
            v = np.ones(s, dtype=dt)
        elif b == "too-small":
            s = list(rs)
            j = k % nd
            if s[j] < 3:
                return
            s[j] -= 1
            v = np.ones(s, dtype=dt)
        elif b == "dict":
            v = {"a": 1}
        elif b == "none":
            v = None
            if dt.kind == "f":
                # numpy makes this a nan
                return
        elif b == "complex":
            v = [1 + 2j, a.astype("complex128") * 1j][k % 2]
            if k % 2:
                return
        elif b == "ragged":
            v = [[1, 2], [3]]
        else:
            v = np.ones([2] + rs, dtype=dt)
        ctx.label("value:" + b)
        try:
            ds[M.sl(case["r"])] = v
        except Exception as e:
            check(not isinstance(e, (AttributeError, SystemError)), "assigning %r: %r", v, e)
        else:
            check(False, "assigning %r to a selection of shape %s was accepted", v, rs)
    d = M.snapdiff(snap, M.snapshot(root))
    check(not d, "a refused request changed files: %s", d)
    check(M.same(ds[...], ref), "a refused request changed the data")


SUBS = [Sub("history", cases, run, quick=3000, batch=50),
        Sub("reject", bad_cases, reject, quick=3000, batch=50)]

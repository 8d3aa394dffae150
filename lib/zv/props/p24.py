"""P24: a write that is interrupted, or observed, at any point leaves old or new content, never a torn one."""
import ctypes
import os
import shutil
import signal

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv.core import Sub, check
from zv.props import p16
from zv.props.p16 import WRITING, World, shim

TECHNIQUE = ("property-based crash-point exploration: each generated operation runs in a child process that an LD_PRELOAD library stops before every system call that changes the container (and within every write); "
             "at the stops the parent reads everything with new handles and compares it with a model, at a generated one the child is killed")
RULE = ("A case is a container (format, dtype, codec, shards, threads) with two datasets, a group and attributes, and 1-3 operations (region, scalar, direct and chunk writes, chunk removal, varlen chunks, attribute changes on the root, "
        "a group and a dataset, creation and removal of datasets and groups). Each runs in a child process that stops before each call that changes the file system below the container, and halfway through each write. At every stop (a "
        "generated subset if there are more than 24) the container is opened and read in full: the other objects, their data and attributes, and the listing are unchanged; each chunk and each attribute set that the operation concerns is as before or as "
        "written; an object that is being created is missing, cannot be opened, or shows its metadata as requested. At a generated stop the child is killed; the same holds, and the operation can be repeated (what is left of an interrupted creation or removal is "
        "deleted before). Non-trivial: the child was killed before it had finished, after it had changed something.")
ASSUMPTIONS = ["the process is killed or observed, the machine goes on: what was written by a system call stays (no power loss)",
               "a directory without metadata may be left of an interrupted creation or removal under the name concerned, temporary files may stay"]

KINDS = ["w", "w", "w", "s", "wd", "wc", "wc", "rm", "attr", "attrs", "delattr", "gattr", "rattr", "create", "group", "require", "varlen", "del", "delg"]


@st.composite
def cases(draw):
    cfg = draw(M.configs(max_ndim=3))
    while np.prod(M.grid(cfg)) > 16:
        k = int(np.argmax(M.grid(cfg)))
        cfg["chunks"][k] = cfg["shape"][k]
        if cfg["fmt"] == "z3s":
            cfg["shards"][k] = cfg["shape"][k]
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        o = draw(p16.op(cfg, draw(st.sampled_from(KINDS))))
        # 0: run to the end
        o["kill"] = draw(st.one_of(st.integers(0, 12), st.integers(0, 120)))
        o["every"] = draw(st.integers(1, 5))
        steps.append(o)
    return dict(cfg=cfg, init=draw(M.writes(cfg, 1, 3)), oinit=draw(M.writes(cfg, 1, 2)), steps=steps)


class World24(World):
    def target(self, o):
        if o["op"] == "del":
            return ["o/"]
        if o["op"] == "delg":
            return ["g/"]
        return World.target(self, o)

    def do(self, f, o):
        if o["op"] == "del":
            del f["o"]
        elif o["op"] == "delg":
            del f["g"]
        else:
            World.do(self, f, o)

    def observe(self, o, exp, what):
        """What a reader may see while o is under way; returns the data and attributes that it found."""
        cfg, k = self.cfg, o["op"]
        d, attrs, new, groups = exp
        f = self.open(mode="r")
        gone = {"del": "o", "delg": "g"}.get(k)
        extra = {n.split("/")[0] for n in list(new) + list(groups)}
        known = {n.split("/")[0] for n in list(self.data) + list(self.groups)}
        keys = set(f.keys())
        check(known - {gone} <= keys <= known | extra, "%s: the container lists %s instead of %s", what, sorted(keys), sorted(known))
        found = {}
        for n, a in self.data.items():
            if n == gone:
                continue
            got = f[n][...]
            if n == "d":
                found[n] = got
                for cid in np.ndindex(*M.grid(cfg)):
                    if k == "varlen" and cid == tuple(o["c"]):
                        continue
                    s = M.chunk_slices(cfg, cid)
                    check(M.same(got[s], a[s]) or M.same(got[s], d[s]), "%s: chunk %s is neither as before nor as written: %s", what, cid, M.diff(got[s], d[s]))
            else:
                check(M.same(got, a), "%s: data of %s: %s", what, n, M.diff(got, a))
        seen = {}
        for n, a in self.attrs.items():
            if n == gone:
                continue
            got = dict((f[n] if n else f).attrs.items())
            if self.fmt == "n5" and not n:
                got.pop("n5", None)
            check(got == a or (n in attrs and got == attrs[n]), "%s: attributes of %r are %s", what, n, str(got)[:300])
            seen[n] = got
        for n in self.groups - {gone}:
            check(n in f and f.is_sub_group(n), "%s: group %s is missing", what, n)
        # the object that is being created or removed
        for n in list(new) + ([gone] if gone else []):
            try:
                ds = f[n]
                shape = ds.shape
            except Exception:
                continue
            check(shape == tuple(cfg["shape"]) and ds.dtype == np.dtype(cfg["dtype"]) and ds.chunks == tuple(M.chunks_of(cfg)), "%s: %s opens with the wrong metadata: %s %s %s", what, n, ds.shape, ds.dtype, ds.chunks)
            want = new[n] if n in new else self.data[n]
            got = ds[...]
            for cid in np.ndindex(*M.grid(cfg)):
                s = M.chunk_slices(cfg, cid)
                check(M.same(got[s], want[s]) or M.same(got[s], np.full_like(got[s], self.fill)), "%s: chunk %s of %s is neither absent nor as written", what, cid, n)
        return found.get("d"), seen


def start(w, o):
    """Runs the operation in a child process that stops at each change of the container."""
    pid = os.fork()
    if pid:
        return pid
    code = 1
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
        lib = shim()
        f = w.open()
        lib.zv_arm(w.path.encode(), WRITING, 0, -2, 0)
        w.do(f, o)
        lib.zv_disarm()
        code = 0
    except BaseException as e:
        try:
            with open(os.path.join(w.base, "error"), "w") as g:
                g.write("%s: %s" % (type(e).__name__, e))
        except BaseException:
            pass
    finally:
        os._exit(code)


def varlen_states(w, o):
    cid = tuple(o["c"])
    got = w.open(mode="r")["d"].read_chunk(cid)
    want = M.make(o["d"], (7,), w.cfg["dtype"], 0)
    return "absent" if got is None else "new" if M.same(got, want) else ("old", got)


def step(w, o, ctx, what):
    k = o["op"]
    exp = w.expect(o)
    d, attrs, new, groups = exp
    varold = varlen_states(w, o) if k == "varlen" else None

    def look(at):
        msg = "%s, %s" % (what, at)
        if k == "varlen":
            # (the dataset cannot be read as an array while it holds a varlen chunk)
            got = varlen_states(w, o)
            same = got == varold if isinstance(got, str) or isinstance(varold, str) else M.same(got[1], varold[1])
            check(same or got == "new", "%s: the varlen chunk is neither as before nor as written", msg)
            return None
        return w.observe(o, exp, msg)
    before = M.snapshot(w.path)
    pid = start(w, o)
    stops, finished = 0, False
    while True:
        _, status = os.waitpid(pid, os.WUNTRACED)
        if not os.WIFSTOPPED(status):
            finished = True
            break
        stops += 1
        kill = stops == o["kill"]
        if kill:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        if kill or stops <= 8 or (stops % o["every"] == 0 and stops < 40):
            try:
                look("killed at change %d" % stops if kill else "at change %d" % stops)
            except BaseException:
                if not kill:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                raise
        if kill:
            break
        os.kill(pid, signal.SIGCONT)
    ctx.label("stops:%d" % min(stops, 64))
    after = M.snapshot(w.path)
    changed = [p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0)]
    t = tuple(w.target(o))
    bad = [p for p in changed if not p.startswith(t) and not (not finished and os.path.basename(p).startswith(".z5tmp"))]
    check(not bad, "%s: changed %s", what, bad[:5])
    gone = {"del": "o", "delg": "g"}.get(k)
    if finished:
        err = ""
        if os.path.exists(os.path.join(w.base, "error")):
            err = open(os.path.join(w.base, "error")).read()
        check(status == 0, "%s: failed with status %d %s", what, status, err)
        check(not any(os.path.basename(p).startswith(".z5tmp") for p in set(after) - set(before)), "%s: temporary files stay", what)
    else:
        ctx.nontrivial |= bool(changed)
        ctx.label("killed")
        ctx.label("killed:" + k)
        ctx.label("killed: temporary file stays", any(os.path.basename(p).startswith(".z5tmp") for p in changed))
        # the operation is repeated
        f = w.open()
        if gone or new or groups:
            for n in ([gone] if gone else sorted((set(new) | groups) - w.groups - set(w.data), reverse=True)):
                p = os.path.join(w.path, n)
                if not os.path.isdir(p):
                    continue
                try:
                    kind = f.is_sub_group(n), f[n]
                except Exception:
                    # (nothing but a directory without metadata)
                    check(not any(x in os.listdir(p) for x in (".zarray", ".zgroup", "zarr.json")), "%s: the metadata of %s cannot be read", what, n)
                    shutil.rmtree(p)
                    continue
                if not gone and n in groups and k == "require":
                    continue
                del kind
                del f[n]
                check(not os.path.exists(p), "%s: %s cannot be removed", what, n)
        if not (gone and not os.path.isdir(os.path.join(w.path, gone))):
            w.do(w.open(), o)
    if k == "varlen":
        check(varlen_states(w, o) == "new", "%s: the varlen chunk is not stored", what)
        cid = M.chunk_slices(w.cfg, o["c"])
        w.open()["d"].write_chunk(tuple(o["c"]), w.data["d"][cid].copy())
        if M.same(w.data["d"][cid], np.full_like(w.data["d"][cid], w.fill)):
            w.open()["d"]._impl.remove_chunk(o["c"])
    elif gone:
        w.data.pop(gone, None)
        w.attrs.pop(gone, None)
        w.groups.discard(gone)
        check(gone not in w.open(), "%s: %s is still there", what, gone)
    else:
        w.commit(exp)
    w.verify(what + (" finished" if finished else " killed and repeated"))


def run(case, ctx):
    w = World24(case, ctx)
    ctx.label("fmt:" + w.fmt)
    ctx.label("threads", w.cfg["threads"] > 1)
    done = set()
    for i, o in enumerate(case["steps"]):
        k = o["op"]
        if not w.applicable(o) or (k in ("create", "group", "require") and (k, o["at"]) in done) or (k in ("del", "delg") and k in done) or ("delg" in done and (k == "gattr" or o.get("at") == "g/")):
            continue
        if k == "delg" and any(n.startswith("g/") for n in list(w.data) + list(w.groups)):
            continue
        done |= {k, (k, o.get("at"))}
        ctx.label("op:" + k)
        step(w, o, ctx, "step %d %s" % (i, k))


SUBS = [Sub("crash", cases, run, quick=1500, batch=50, preload=True)]

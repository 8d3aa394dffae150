"""Driver of one check:  main.py PROP [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: it is broken.
Exit 2: the check itself could not run.
"""
import argparse
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from zv import build, core  # noqa: E402

PY = build.PY
VERIF = build.VERIF
FINDINGS = os.path.join(VERIF, "known_findings.txt")
NPROC = 8


def scratch_base():
    # a memory backed scratch directory where there is room, the ordinary one otherwise
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > 2 << 30:
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


def san_env(sub):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_odr_violation=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:report_signal_unsafe=0:history_size=5"
    env.update(sub.env)
    return env


def sub_env(sub):
    if sub.kind == "cpp":
        return san_env(sub)
    env = dict(os.environ)
    if sub.preload:
        env["LD_PRELOAD"] = env["ZV_FAULTSHIM"] = build.shim()
    return env


class Job:
    def __init__(self, prop, sub, idx, seed, count, budget, scratch, binp, extdir):
        self.prop, self.sub, self.idx, self.seed, self.count, self.budget = prop, sub, idx, seed, count, budget
        self.dir = os.path.join(scratch, "%s-%d" % (sub.name, idx))
        os.makedirs(self.dir)
        self.out = os.path.join(self.dir, "out.json")
        self.journal = os.path.join(self.dir, "journal")
        self.binp, self.extdir = binp, extdir
        self.result = None
        self.fail = None
        self.error = None

    def cmd(self):
        if self.sub.kind == "cpp":
            return [self.binp, "run", self.sub.test, "--seed", str(self.seed), "--count", str(self.count),
                    "--budget", str(self.budget), "--out", self.out, "--journal", self.journal,
                    "--scratch", self.dir + "/s", "--guided", str(self.idx % 2)]
        return [PY, os.path.join(HERE, "worker.py"), "run", self.prop, self.sub.name, "--seed", str(self.seed),
                "--count", str(self.count), "--budget", str(self.budget), "--out", self.out,
                "--journal", self.journal, "--scratch", self.dir + "/s", "--ext", self.extdir or ""]

    def run(self):
        os.makedirs(self.dir + "/s")
        env = sub_env(self.sub)
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["TMPDIR"] = self.dir + "/s"
        env["PYTHONHASHSEED"] = "0"
        log = open(os.path.join(self.dir, "log"), "w")
        p = subprocess.Popen(self.cmd(), stdout=log, stderr=subprocess.STDOUT, env=env, cwd=self.dir,
                             start_new_session=True)
        t0 = time.time()
        hung = False
        while True:
            try:
                rc = p.wait(timeout=0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            try:
                age = now - os.path.getmtime(self.journal)
            except OSError:
                age = now - t0
            if age > self.sub.hang or now - t0 > self.budget + 330:
                hung = age > self.sub.hang
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                rc = p.wait()
                break
        log.close()
        tail = open(log.name, errors="replace").read()[-6000:]
        if os.path.exists(self.out):
            try:
                self.result = json.load(open(self.out))
                self.fail = self.result.get("fail")
            except ValueError:
                self.result = None
        if rc != 0 and self.fail is None:
            if os.path.exists(self.journal) and (rc < 0 or rc in (98, 99, 134, 139) or hung):
                try:
                    case = json.loads(open(self.journal).read())
                    self.fail = dict(case=case, error=("hang" if hung else "process died (%d)" % rc) + "\n" + tail[-3000:],
                                     crash=True, hang=hung)
                except ValueError:
                    self.error = "unreadable journal after rc %d\n%s" % (rc, tail)
            else:
                self.error = "worker ended with %d\n%s" % (rc, tail)
        shutil.rmtree(self.dir + "/s", ignore_errors=True)


def replay_once(prop, sub, casefile, binp, extdir, scratch, timeout):
    """(violated, message)"""
    d = tempfile.mkdtemp(prefix="replay-", dir=scratch)
    try:
        if sub.kind == "cpp":
            cmd = [binp, "replay", sub.test, "--case", casefile, "--scratch", d]
        else:
            cmd = [PY, os.path.join(HERE, "worker.py"), "replay", prop, sub.name, "--case", casefile,
                   "--scratch", d, "--ext", extdir or ""]
        env = sub_env(sub)
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["TMPDIR"] = d
        env["PYTHONHASHSEED"] = "0"
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                             env=env, cwd=d, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out, _ = p.communicate()
            return True, "hang: no answer within %d s\n%s" % (timeout, out[-2000:])
        if p.returncode == 0:
            return False, ""
        if p.returncode == 1 or p.returncode < 0 or p.returncode in (98, 99, 134, 139):
            return True, "exit %d: %s" % (p.returncode, out[-3000:])
        return False, "replay could not run: exit %d %s" % (p.returncode, out[-2000:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def shrink_choices(prop, sub, fail, binp, extdir, scratch, deadline):
    """Shrink a crashing choice sequence of a C++ harness out of process."""
    best = list(fail["case"]["choices"])
    path = os.path.join(scratch, "shrink.json")

    def bad(ch):
        if time.time() > deadline:
            return False
        json.dump(dict(case=dict(choices=ch)), open(path, "w"))
        return replay_once(prop, sub, path, binp, extdir, scratch, 60)[0]
    n = len(best) // 2
    while n >= 1 and time.time() < deadline:
        i = 0
        while i < len(best) and time.time() < deadline:
            cand = best[:i] + best[i + n:]
            if len(cand) < len(best) and bad(cand):
                best = cand
            else:
                i += n
        n //= 2
    for i in range(len(best)):
        if time.time() > deadline:
            break
        if best[i] and bad(best[:i] + [0] + best[i + 1:]):
            best[i] = 0
    return dict(choices=best)


def load_findings(prop):
    """Lines  finding: property=Pxx key=<key> <what fails>   /   fixed: property=... (suppresses nothing)."""
    res = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = importlib.import_module("zv.props." + prop.lower())
    subs = [s for s in mod.SUBS if not a.sub or s.name == a.sub]
    needs_ext = getattr(mod, "EXT", "fast" if any(s.kind == "py" for s in subs) else None)
    if needs_ext and tier == "thorough" and needs_ext == "fast":
        needs_ext = "native"
    if tier == "thorough":
        # half of the workers are guided by coverage
        for s in subs:
            if s.kind == "cpp" and s.san == "asan":
                s.san = "cov"
    # build everything the check needs from the current tree
    jobs_b = []
    with ThreadPoolExecutor(8) as ex:
        fe = ex.submit(build.ext, needs_ext) if needs_ext else None
        fb = {}
        for s in subs:
            if s.kind == "cpp" and (s.harness, s.san, tuple(s.defs)) not in fb:
                fb[(s.harness, s.san, tuple(s.defs))] = ex.submit(build.cpp, s.harness, s.san, "clang++", s.defs)
        extdir = fe.result() if fe else None
        bins = {k: f.result() for k, f in fb.items()}
    tb = time.time() - t0

    def binp(s):
        return bins.get((s.harness, s.san, tuple(s.defs))) if s.kind == "cpp" else None

    scratch = tempfile.mkdtemp(prefix="zv-%s-" % prop, dir=scratch_base())
    try:
        if a.replay:
            data = json.load(open(a.replay))
            sub = [s for s in mod.SUBS if s.name == data["sub"]][0]
            bad, msg = replay_once(prop, sub, os.path.abspath(a.replay), binp(sub), extdir, scratch, 300)
            print(msg)
            if bad:
                print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1 if bad else 0
        return explore(mod, prop, subs, seed, tier, a, scratch, extdir, binp, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def explore(mod, prop, subs, seed, tier, a, scratch, extdir, binp, t0, tb):
    total_budget = float(os.environ.get("ZV_BUDGET", 150 if tier == "quick" else 3 * 3600))
    jobs = []
    budget = total_budget
    for s in subs:
        n = int((s.quick if tier == "quick" else s.thorough) * a.scale)
        w = max(1, min(s.workers, NPROC, n))
        for i in range(w):
            c = n // w + (1 if i < n % w else 0)
            if c:
                jobs.append(Job(prop, s, i, seed * 1000 + i, c, budget, scratch, binp(s), extdir))
    jobs.sort(key=lambda j: j.idx)
    errors = []
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda j: j.run(), jobs))
    fails = [(j.sub, j.fail) for j in jobs if j.fail]
    errors = ["%s: %s" % (j.sub.name, j.error) for j in jobs if j.error]

    # known findings: each listed one has a probe that says whether it still fails
    known = load_findings(prop)
    for key, what in known.items():
        probe = getattr(mod, "FINDINGS", {}).get(key)
        if probe is not None:
            sub, case = probe
            f = os.path.join(scratch, "probe.json")
            json.dump(dict(sub=sub, case=case), open(f, "w"))
            s = [x for x in mod.SUBS if x.name == sub][0]
            if replay_once(prop, s, f, binp(s), extdir, scratch, 120)[0]:
                print("KNOWN-FINDING: property=%s %s" % (prop, what))

    # a reported failure counts once it is reproduced by its replay file
    violations = []
    unreproduced = []
    seen = set()
    for sub, fail in fails:
        if sub.name in seen:
            continue
        case = fail["case"]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%s.json" % (prop, sub.name, core.case_hash(case)))

        def store(case):
            with open(path, "w") as f:
                json.dump(dict(property=prop, sub=sub.name, case=case, error=fail["error"],
                               how="./check %s --replay <this file>" % prop), f, indent=1)
        store(case)
        hits, msg = 0, ""
        for k in range(sub.replays):
            bad, m = replay_once(prop, sub, path, binp(sub), extdir, scratch, 60 if not fail.get("hang") else sub.hang)
            if bad:
                hits, msg = hits + 1, m
                if k >= 2 or hits >= 3:
                    break
        if hits:
            seen.add(sub.name)
            if sub.kind == "cpp" and fail.get("crash") and not fail.get("hang") and "choices" in case:
                case = shrink_choices(prop, sub, fail, binp(sub), extdir, scratch, time.time() + 30)
                store(case)
            print("--- %s/%s: reproduced %d times\n%s\n%s" % (prop, sub.name, hits, fail["error"][:3000], msg[-2500:]))
            violations.append((sub.name, path))
        else:
            unreproduced.append("%s: %s" % (sub.name, fail["error"][:500]))

    # evidence
    hashes, labels, samples, evals, skipped = {}, {}, [], 0, 0
    per_sub = {}
    for j in jobs:
        r = j.result
        if not r:
            continue
        evals += r["evals"]
        skipped += r.get("skipped", 0)
        hs = hashes.setdefault(j.sub.name, set())
        hs.update(r["hashes"])
        ps = per_sub.setdefault(j.sub.name, dict(evaluations=0, nontrivial=0, classes={}))
        ps["evaluations"] += r["evals"]
        for k, v in r["labels"].items():
            ps["classes"][k] = ps["classes"].get(k, 0) + v
        if j.idx < 2:
            samples += [dict(sub=j.sub.name, case=c) for c in r["samples"][:2]]
    for k, v in hashes.items():
        per_sub[k]["nontrivial"] = len(v)
    distinct = sum(len(v) for v in hashes.values())
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct, rule=mod.RULE, samples=samples[:12],
                            per_subcheck=per_sub, skipped_outside_domain=skipped, unreproduced=unreproduced,
                            build_s=round(tb, 1)),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 1),
              violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.0f s, total %.0f s" %
          (prop, tier, seed, evals, distinct, tb, time.time() - t0))
    for u in unreproduced:
        print("not reproduced by its replay (not counted): " + u)
    if violations:
        for name, path in violations:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("CHECK ERROR\n" + "\n".join(errors)[:6000])
        return 2
    if distinct == 0:
        print("CHECK ERROR: nothing non-trivial was explored")
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except build.BuildError as e:
        print("CHECK ERROR: build failed\n" + str(e))
        rc = 2
    sys.stdout.flush()
    os._exit(rc)

"""Sub-checks, their context, and the Hypothesis engine that drives them."""
import hashlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback


class Violation(AssertionError):
    pass


class Skip(Exception):
    """A case outside the domain of the property (counted, never hidden)."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Sub:
    """One executable sub-check of a property.

    strategy: callable returning a Hypothesis strategy of JSON-serialisable cases
    fn(case, ctx): raises on a violation (any exception counts)
    quick / thorough: number of cases over all workers
    """
    kind = "py"

    def __init__(self, name, strategy, fn, quick, thorough=None, batch=100, replays=3, isolate=False, weight=1.0,
                 workers=8, hang=90, preload=False):
        # preload: the worker runs with the fault injection library (cpp/faultshim.c)
        self.preload = preload
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough or quick * 20
        self.batch, self.replays, self.isolate, self.weight = batch, replays, isolate, weight
        self.workers, self.hang = workers, hang


class CppSub:
    """A sub-check implemented by a C++ harness (see cpp/pbt.hpp)."""
    kind = "cpp"

    def __init__(self, name, harness, test, quick, thorough=None, san="asan", replays=3, workers=8, hang=120, env=None, defs=()):
        self.name, self.harness, self.test, self.san = name, harness, test, san
        self.quick, self.thorough = quick, thorough or quick * 20
        self.replays, self.workers, self.hang = replays, workers, hang
        self.env = env or {}
        self.defs = list(defs)
        self.weight = 1.0


def jdump(case):
    return json.dumps(case, sort_keys=True)


def case_hash(case):
    return hashlib.md5(jdump(case).encode()).hexdigest()[:12]


class Ctx:
    """What a sub-check sees while it runs one case."""

    def __init__(self, scratch):
        self.root = scratch
        self.n = 0
        self.classes = {}
        self.nontrivial = False
        self.dirs = []

    def dir(self, suffix=""):
        """A fresh, empty scratch directory, removed after the case."""
        self.n += 1
        d = os.path.join(self.root, "c%d%s" % (self.n, suffix))
        os.makedirs(d)
        self.dirs.append(d)
        return d

    def path(self, suffix):
        """A fresh path that does not exist yet, inside a scratch directory."""
        return os.path.join(self.dir(), "x" + suffix)

    def label(self, name, cond=True):
        if cond:
            self._labels.add(name)

    def begin(self):
        self._labels = set()
        self.nontrivial = False

    def end(self):
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)
        self.dirs = []
        labels, self._labels = self._labels, set()
        return labels


class Budget(Exception):
    pass


class Runner:
    """Runs a number of generated cases of one Sub in this process."""

    def __init__(self, sub, scratch, journal):
        self.sub, self.journal = sub, journal
        self.ctx = Ctx(scratch)
        self.evals = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.fail = None
        self.fail_time = None
        self.skipped = 0
        self.shrink_limit = 60.0

    def execute(self, case):
        """Run one case; raises on a violation."""
        ctx = self.ctx
        if self.journal:
            with open(self.journal, "w") as f:
                f.write(jdump(case))
        ctx.begin()
        try:
            self.sub.fn(case, ctx)
        except Skip:
            self.skipped += 1
            return
        finally:
            nt = ctx.nontrivial
            labels = ctx.end()
        self.evals += 1
        for l in labels:
            self.labels[l] = self.labels.get(l, 0) + 1
        if nt:
            h = case_hash(case)
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.samples) < 3 or (len(self.samples) < 6 and len(self.hashes) % 50 == 0):
                    self.samples.append(case)

    def run(self, seed, count, budget):
        from hypothesis import HealthCheck, Phase, Verbosity, given, settings
        from hypothesis import seed as hseed
        t0 = time.time()
        done = 0
        batch_no = 0
        strategy = self.sub.strategy()
        while done < count and time.time() - t0 < budget:
            n = min(self.sub.batch, count - done)

            def test(case):
                if self.fail_time is not None:
                    if time.time() - self.fail_time > self.shrink_limit:
                        return
                elif time.time() - t0 > budget:
                    return
                try:
                    self.execute(case)
                except Exception as e:
                    if self.fail_time is None:
                        self.fail_time = time.time()
                    self.fail = dict(case=json.loads(jdump(case)), error=describe(e))
                    raise
            test = given(case=strategy)(test)
            test = hseed((seed << 16) + batch_no)(test)
            test = settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                            report_multiple_bugs=False, verbosity=Verbosity.quiet,
                            phases=(Phase.generate, Phase.shrink),
                            suppress_health_check=list(HealthCheck))(test)
            try:
                test()
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt):
                    raise
                if self.fail is None:
                    # the harness itself failed (a broken strategy, for instance)
                    raise
                return
            done += n
            batch_no += 1


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "/zv/" in fr.filename:
            where = "%s:%d" % (os.path.basename(fr.filename), fr.lineno)
            break
    return "%s: %s [%s]" % (type(e).__name__, str(e)[:1500], where)

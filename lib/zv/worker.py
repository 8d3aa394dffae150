"""Child process: runs the cases of one sub-check, or replays one case.

worker.py run   PROP SUB --seed S --count N --budget T --out F --journal F --scratch D --ext D
worker.py replay PROP SUB --case F --scratch D --ext D       exit 0: holds, 1: violated (message on stdout)
"""
import argparse
import faulthandler
import importlib
import json
import os
import sys
import warnings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("prop")
    ap.add_argument("sub")
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--count", type=int, default=0)
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--out")
    ap.add_argument("--journal")
    ap.add_argument("--scratch")
    ap.add_argument("--ext")
    ap.add_argument("--case")
    a = ap.parse_args()
    faulthandler.enable()
    warnings.simplefilter("ignore")
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, os.path.dirname(here))
    if a.ext:
        sys.path.insert(0, a.ext)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", os.path.join(a.scratch, "hyp"))
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    from zv import core
    mod = importlib.import_module("zv.props." + a.prop.lower())
    sub = [s for s in mod.SUBS if s.name == a.sub][0]
    if a.ext:
        import z5py
        assert os.path.realpath(z5py.__file__).startswith(os.path.realpath(a.ext)), z5py.__file__
    r = core.Runner(sub, a.scratch, a.journal)
    if a.cmd == "replay":
        case = json.load(open(a.case))["case"]
        try:
            r.execute(case)
        except Exception as e:
            print(core.describe(e))
            sys.stdout.flush()
            os._exit(1)
        os._exit(0)
    r.run(a.seed, a.count, a.budget)
    with open(a.out, "w") as f:
        json.dump(dict(evals=r.evals, hashes=sorted(r.hashes), labels=r.labels, samples=r.samples,
                       fail=r.fail, skipped=r.skipped), f)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()

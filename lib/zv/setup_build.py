import glob
import importlib
import os
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from zv import build  # noqa: E402

specs = set()
exts = set()
for f in sorted(glob.glob(HERE + "/props/p*.py")):
    m = importlib.import_module("zv.props." + os.path.basename(f)[:-3])
    e = getattr(m, "EXT", "fast" if any(s.kind == "py" for s in m.SUBS) else None)
    if e:
        exts.add(e)
    for s in m.SUBS:
        if s.kind == "cpp":
            specs.add((s.harness, s.san, tuple(s.defs)))
with ThreadPoolExecutor(4) as ex:
    fs = [ex.submit(build.ext, e) for e in sorted(exts)]
    fs += [ex.submit(build.cpp, h, s, "clang++", list(d)) for h, s, d in sorted(specs)]
    for x in fs:
        print(x.result())

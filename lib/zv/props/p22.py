"""P22: parallel iteration runs every item exactly once and reports failures."""
from zv.core import CppSub

TECHNIQUE = "property-based testing of the thread pool with call counters, throwing items and ThreadSanitizer"
RULE = ("foreach: item count 0-5000, threads -2..17, five range kinds (count, random access, list, set, input iterator), throwing items, own or shared pool; "
        "pool: 0-60 tasks with results, exceptions, sleeps; drop: pools destroyed with queued tasks. Non-trivial: more than one item (task) on more than one thread.")
ASSUMPTIONS = ["the harness does not own the scheduler: interleavings are those the machine produces, with ThreadSanitizer's happens-before analysis on top"]
SUBS = [
    CppSub("foreach", "p22_threads", "foreach", quick=4000, san="tsan", workers=4, replays=25, hang=60),
    CppSub("foreach_asan", "p22_threads", "foreach", quick=6000, san="asan", workers=4, replays=25, hang=60),
    CppSub("pool", "p22_threads", "pool", quick=4000, san="tsan", workers=4, replays=25, hang=60),
    CppSub("pool_asan", "p22_threads", "pool", quick=4000, san="asan", workers=4, replays=25, hang=60),
    CppSub("drop", "p22_threads", "drop", quick=2000, san="tsan", workers=4, replays=25, hang=60),
]

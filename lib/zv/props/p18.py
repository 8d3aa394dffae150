"""P18: dataset-wide utilities compute what a full read would give."""
from zv.core import CppSub

TECHNIQUE = "model-based property testing of the dataset utilities over generated histories, regions and thread counts (AddressSanitizer, ThreadSanitizer)"
RULE = ("Datasets of four formats (n5, zarr v2, v3, v3 sharded), 1-5 d grids with ragged edges, six dtypes, partly stored, with constant, nearly constant, varlen and removed chunks; thread counts 1-17, 0, -1, -2. "
        "unique: values and counts against the model; non-trivial: more than one distinct value. trivial: set of chunks and all contents after removeTrivialChunks (any, specific value, read-only); non-trivial: some chunk had to go. "
        "iterate: chunks and blocks, whole dataset or region, each exactly once with valid thread ids; non-trivial: more than one item. removal: removeDataset against sibling copies.")
ASSUMPTIONS = ["data without nan: std::set and std::map have no order for them",
               "the harness does not own the scheduler: interleavings are those the machine produces, with ThreadSanitizer's analysis in the tsan variants"]
SUBS = [
    CppSub("unique", "p18_utils", "unique", quick=1500, san="asan", replays=25),
    CppSub("trivial", "p18_utils", "trivial", quick=1500, san="asan", replays=25),
    CppSub("iterate", "p18_utils", "iterate", quick=4000, san="asan", replays=25),
    CppSub("removal", "p18_utils", "removal", quick=800, san="asan", replays=25),
    CppSub("unique_tsan", "p18_utils", "unique", quick=400, san="tsan", replays=25),
    CppSub("trivial_tsan", "p18_utils", "trivial", quick=400, san="tsan", replays=25),
]

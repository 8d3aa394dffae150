"""P04: every codec is lossless and honours the requested options."""
import ctypes
import lzma
import os

import numpy as np
from hypothesis import strategies as st

from zv import model as M
from zv import spec
from zv.core import CppSub, Sub, check

RULE = ("roundtrip (C++, ASan): a codec with all options generated, one of five element types, 1 byte to ~1.2 MB of content of nine kinds around the internal buffer and block sizes, fresh or dirty output vectors, "
        "decoded through both overloads from and into exactly sized heap buffers; the encoded bytes are compared with what the codec library gives for the requested and for all other options. foreign: "
        "streams of other encoders (all zlib windows/strategies/flushes, gzip header fields, bzip2 work factors, xz filters and checks, zstd frames, blosc type sizes, lz4 hc), also truncated or of the wrong size. "
        "metadata: options through creation, JSON and back. Each for the libdeflate and the stock zlib backend. huge: chunks beyond 4 GiB. plumbing (Python): options given to create_dataset, the stored chunk, "
        "the stored metadata and the re-opened dataset; unknown options and codecs. Non-trivial: more than one element and not all zero (plumbing: at least one non-default option, or a refused request).")
TECHNIQUE = "property-based round-trip testing of codecs, differential against the codec libraries called directly for the options, AddressSanitizer as memory oracle, property-based testing of the Python option path"
ASSUMPTIONS = ["lz4 has no compression level: the option is only recorded (as the code documents)",
               "gzip / zlib level 0 may be applied as level 1 (libdeflate has no store mode)",
               "an encoding that equals the library's output for no options at all is accepted if it decodes (another way to drive the encoder)"]

_libs = {}


def lib(name):
    if name not in _libs:
        _libs[name] = ctypes.CDLL({"deflate": "libdeflate.so.0", "zstd": "libzstd.so.1", "blosc": "libblosc.so.1"}[name])
    return _libs[name]


def reference(codec, o, raw, itemsize):
    """What the codec library gives for these options (None: unknown)."""
    n = len(raw)
    if codec in ("gzip", "zlib"):
        d = lib("deflate")
        d.libdeflate_alloc_compressor.restype = ctypes.c_void_p
        f = d.libdeflate_gzip_compress if codec == "gzip" else d.libdeflate_zlib_compress
        f.restype = ctypes.c_size_t
        c = ctypes.c_void_p(d.libdeflate_alloc_compressor(ctypes.c_int(max(1, o["level"]))))
        out = ctypes.create_string_buffer(2 * n + 1000)
        r = f(c, raw, ctypes.c_size_t(n), out, ctypes.c_size_t(len(out)))
        d.libdeflate_free_compressor(c)
        return out.raw[:r]
    if codec == "zstd":
        d = lib("zstd")
        d.ZSTD_compress.restype = ctypes.c_size_t
        out = ctypes.create_string_buffer(2 * n + 1000)
        r = d.ZSTD_compress(out, ctypes.c_size_t(len(out)), raw, ctypes.c_size_t(n), ctypes.c_int(o["level"]))
        return out.raw[:r]
    if codec == "xz":
        return lzma.compress(raw, format=lzma.FORMAT_XZ, check=lzma.CHECK_CRC64, preset=o["level"])
    if codec == "blosc":
        d = lib("blosc")
        out = ctypes.create_string_buffer(n + 16)
        r = d.blosc_compress_ctx(o["level"], o["shuffle"], ctypes.c_size_t(itemsize), ctypes.c_size_t(n), raw, out,
                                 ctypes.c_size_t(len(out)), o["codec"].encode(), ctypes.c_size_t(o["blocksize"]), 1)
        return out.raw[:r] if r > 0 else None
    return None


DEFAULTS = {"gzip": {"level": 5}, "zlib": {"level": 5}, "bzip2": {"level": 5}, "xz": {"level": 6}, "lz4": {"level": 6}, "zstd": {"level": 3}, "raw": {},
            "blosc": {"codec": "lz4", "level": 5, "shuffle": 1, "blocksize": 0, "nthreads": 1}}
ALTS = {"gzip": {"level": range(0, 10)}, "zlib": {"level": range(0, 10)}, "zstd": {"level": range(-5, 20)}, "xz": {"level": range(0, 7)},
        "blosc": {"level": range(0, 10), "shuffle": range(3), "codec": M.BLOSC_CODECS, "blocksize": [0, 16, 64, 256, 1000, 4096, 65536]}}


@st.composite
def plumbing(draw):
    cfg = draw(M.configs(fmts=["n5", "z2", "z3", "z3s"], max_ndim=2, threads=(1,), dtypes=["uint8", "int16", "uint32", "float64"]))
    big = draw(st.integers(0, 2)) == 0
    if big:
        cfg["shape"] = [draw(st.integers(500, 6000))]
        cfg["chunks"] = [draw(st.integers(300, 3000))]
        if cfg["fmt"] == "z3s":
            cfg["shards"] = [min(cfg["chunks"][0], cfg["shape"][0]) * 2]
    c = cfg["codec"]
    o = {}
    lev = {"gzip": (0, 9), "zlib": (0, 9), "bzip2": (1, 9), "xz": (0, 6), "zstd": (-5, 12), "lz4": (1, 9), "blosc": (0, 9)}.get(c)
    if lev and draw(st.integers(0, 3)):
        o["clevel" if c == "blosc" and draw(st.booleans()) else "level"] = draw(st.integers(*lev))
    if c == "blosc":
        if draw(st.booleans()):
            o["codec"] = draw(st.sampled_from(M.BLOSC_CODECS))
        if draw(st.booleans()):
            o["shuffle"] = draw(st.integers(0, 2))
        if draw(st.booleans()):
            o["blocksize"] = draw(st.sampled_from([0, 16, 64, 256, 1000, 4096]))
        if draw(st.integers(0, 4)) == 0:
            o["nthreads"] = draw(st.integers(1, 3))
    cfg["copts"] = o
    bad = draw(st.sampled_from([None] * 6 + ["codec", "option", "option"]))
    return dict(cfg=cfg, d=draw(st.fixed_dictionaries(dict(p=st.sampled_from(["rand", "small", "small", "sparse", "ramp", "text"]), s=st.integers(0, 10 ** 6)))),
                bad=bad, badname=draw(st.sampled_from(["lvl", "clevels", "compression_level", "Level", "cname", "block_size", "shufle", "preset", "acceleration", "useGzip"])),
                badcodec=draw(st.sampled_from(["", "lzma", "gzip2", "GZIP", "deflate", "snappy", "zst", "bz", "blosc2", "zlib2"])), require=draw(st.booleans()),
                parts=draw(st.integers(1, 3)))


def data(pat, shape, dtype):
    if pat["p"] == "text":
        n = int(np.prod(shape))
        rng = np.random.default_rng(pat["s"])
        words = rng.integers(0, 50, size=(30, 7))
        return words[rng.integers(0, 30, size=n // 7 + 1)].ravel()[:n].astype(dtype).reshape(shape)
    return M.make(pat, shape, dtype)


def stored(path, cfg):
    """[(chunk id, encoded bytes, decoded bytes)] from the files."""
    a = spec.read(path, bare_lz4=True)
    res = []
    for cid in sorted(a.raw):
        if cfg["fmt"] == "n5":
            shp = [s.stop - s.start for s in M.chunk_slices(cfg, cid)]
        else:
            shp = M.chunks_of(cfg)
        nb = int(np.prod(shp)) * np.dtype(cfg["dtype"]).itemsize
        res.append((cid, bytes(a.raw[cid]), spec.decode("lz4-bare" if cfg["codec"] == "lz4" else cfg["codec"], a.raw[cid], nb)))
    return res


def check_applied(cfg, want, encs, ctx, what):
    codec, item = cfg["codec"], np.dtype(cfg["dtype"]).itemsize
    for cid, enc, raw in encs:
        if codec == "gzip":
            check(enc[:2] == b"\x1f\x8b", "%s: chunk %s is not a gzip stream: %r", what, cid, enc[:4])
        elif codec == "zlib":
            check(enc[0] & 15 == 8 and (enc[0] * 256 + enc[1]) % 31 == 0, "%s: chunk %s is not a zlib stream: %r", what, cid, enc[:4])
        elif codec == "bzip2":
            check(enc[:4] == b"BZh%d" % want["level"], "%s: chunk %s was compressed with %r, level %d requested", what, cid, enc[:4], want["level"])
        if codec in ALTS:
            if len(raw) > 70000 or reference(codec, want, raw, item) == enc:
                ctx.label("option verified")
                continue
            for key, vals in ALTS[codec].items():
                for base in (want, DEFAULTS[codec]):
                    for v in vals:
                        alt = dict(base, **{key: v})
                        if {k: x for k, x in alt.items() if k != "nthreads"} == {k: x for k, x in want.items() if k != "nthreads"}:
                            continue
                        if codec in ("gzip", "zlib") and max(1, alt["level"]) == max(1, want["level"]):
                            continue
                        check(reference(codec, alt, raw, item) != enc, "%s: chunk %s is what %s with %s gives, requested was %s", what, cid, codec, alt, want)
            ctx.label("option not identified")


def run_plumbing(case, ctx):
    cfg = case["cfg"]
    path = ctx.path(M.ext_of(cfg["fmt"]))
    f = M.open_file(path, cfg["fmt"], "a", cfg.get("sep"))
    kw = M.create_kwargs(cfg)
    make = f.require_dataset if case["require"] else f.create_dataset
    ctx.label(cfg["codec"])
    ctx.label(cfg["fmt"])
    if case["bad"]:
        ctx.nontrivial = True
        ctx.label("unknown " + case["bad"])
        if case["bad"] == "codec":
            kw["compression"] = case["badcodec"]
            for k in cfg["copts"]:
                kw.pop(k)
        else:
            kw[case["badname"]] = 1
        snap = M.snapshot(path)
        try:
            make("data", **kw)
        except Exception:
            check(M.snapshot(path) == snap, "the refused dataset left something behind: %s", M.snapdiff(snap, M.snapshot(path)))
            return
        check(False, "create_dataset accepted the unknown %s", "codec %r" % case["badcodec"] if case["bad"] == "codec" else "option %r" % case["badname"])
    ds = make("data", **kw)
    want = dict(DEFAULTS[cfg["codec"]])
    want.update({("level" if k == "clevel" else k): v for k, v in cfg["copts"].items()})
    ctx.nontrivial = want != DEFAULTS[cfg["codec"]]
    # the number of threads is not part of the zarr metadata
    drop = lambda o: {k: v for k, v in dict(o).items() if not (k == "nthreads" and cfg["fmt"] != "n5")}
    check(drop(ds.compression_opts) == drop(want), "the new dataset reports %s, requested was %s", ds.compression_opts, want)
    a = data(case["d"], cfg["shape"], cfg["dtype"])
    # in parts, so that chunks are also re-encoded after a merge
    n = a.shape[0]
    for k in range(case["parts"]):
        lo, hi = n * k // case["parts"], n * (k + 1) // case["parts"]
        if hi > lo:
            ds[lo:hi] = a[lo:hi]
    if not M.same(ds[...], a):
        check(False, "read back: %s", M.diff(ds[...], a))
    p = os.path.join(path, "data")
    encs = stored(p, cfg)
    check_applied(cfg, want, encs, ctx, "written by the new dataset")
    # re-opened: same report, same content, same encoding
    f2 = M.open_file(path, cfg["fmt"], "a", cfg.get("sep"))
    ds2 = f2["data"]
    check(drop(ds2.compression_opts) == drop(want), "after re-opening the options are %s, requested was %s", ds2.compression_opts, want)
    name = "bz2" if cfg["codec"] == "bzip2" and cfg["fmt"] != "n5" else cfg["codec"]
    check(ds2.compression in (name, cfg["codec"]), "after re-opening the codec is %s", ds2.compression)
    check(M.same(ds2[...], a), "after re-opening: %s", M.diff(ds2[...], a))
    b = a[::-1].copy()
    ds2[...] = b
    check(M.same(ds2[...], b), "overwritten after re-opening: %s", M.diff(ds2[...], b))
    check_applied(cfg, want, stored(p, cfg), ctx, "written by the re-opened dataset")


SUBS = [
    CppSub("roundtrip", "codec", "roundtrip", quick=6000, san="asan"),
    CppSub("foreign", "codec", "foreign", quick=8000, san="asan"),
    CppSub("metadata", "codec", "metadata", quick=4000, san="asan"),
    CppSub("roundtrip_zlib", "codec", "roundtrip", quick=3000, san="asan", defs=["-DZV_STOCK_ZLIB"]),
    CppSub("foreign_zlib", "codec", "foreign", quick=3000, san="asan", defs=["-DZV_STOCK_ZLIB"]),
    CppSub("huge", "codec", "huge", quick=1, thorough=3, san="plain", workers=1, hang=900, replays=2),
    CppSub("huge_zlib", "codec", "huge", quick=1, thorough=4, san="plain", workers=1, hang=900, replays=2, defs=["-DZV_STOCK_ZLIB"]),
    Sub("plumbing", plumbing, run_plumbing, quick=2400, thorough=60000),
]

"""Readers and writers of the n5, zarr v2 and zarr v3 formats, written from their specifications.

They share no code with z5 and work on the stored files only.  The reader is strict: everything the
specification fixes is checked, and every file in an array directory has to be accounted for.
"""
import bz2
import gzip
import io
import itertools
import json
import lzma
import os
import re
import struct
import zlib

import numpy as np


META_ONLY = False


class Bad(Exception):
    """The container does not conform."""


def need(cond, msg, *a):
    if not cond:
        raise Bad(msg % a if a else msg)


_CRC = None


def crc32c(data):
    global _CRC
    if _CRC is None:
        _CRC = []
        for i in range(256):
            c = i
            for _ in range(8):
                c = (c >> 1) ^ (0x82F63B78 if c & 1 else 0)
            _CRC.append(c)
    c = 0xFFFFFFFF
    for b in data:
        c = _CRC[(c ^ b) & 255] ^ (c >> 8)
    return c ^ 0xFFFFFFFF


def _blosc():
    import numcodecs.blosc
    return numcodecs.blosc


def _zstd():
    import numcodecs
    return numcodecs.Zstd


def blosc_header(buf):
    """(cname format code, typesize, flags, nbytes, blocksize, cbytes)"""
    need(len(buf) >= 16, "blosc frame too short")
    flags, ts = buf[2], buf[3]
    nbytes, bs, cb = struct.unpack("<III", buf[4:16])
    return dict(fmt=flags >> 5, shuffle=flags & 1, memcpy=(flags >> 1) & 1, bitshuffle=(flags >> 2) & 1,
                typesize=ts, nbytes=nbytes, blocksize=bs, cbytes=cb)


def xxh32(data, seed=0):
    P1, P2, P3, P4, P5, M = 2654435761, 2246822519, 3266489917, 668265263, 374761393, 0xFFFFFFFF

    def rot(x, r):
        return ((x << r) | (x >> (32 - r))) & M
    n, i = len(data), 0
    if n >= 16:
        v = [(seed + P1 + P2) & M, (seed + P2) & M, seed, (seed - P1) & M]
        while i + 16 <= n:
            for k, x in enumerate(struct.unpack("<4I", data[i:i + 16])):
                v[k] = rot((v[k] + x * P2) & M, 13) * P1 & M
            i += 16
        h = (rot(v[0], 1) + rot(v[1], 7) + rot(v[2], 12) + rot(v[3], 18)) & M
    else:
        h = (seed + P5) & M
    h = (h + n) & M
    while i + 4 <= n:
        h = rot((h + struct.unpack("<I", data[i:i + 4])[0] * P3) & M, 17) * P4 & M
        i += 4
    for b in data[i:]:
        h = rot((h + b * P5) & M, 11) * P1 & M
    h ^= h >> 15
    h = h * P2 & M
    h ^= h >> 13
    h = h * P3 & M
    return h ^ (h >> 16)


def _lz4():
    import numcodecs
    return numcodecs.LZ4()


def lz4_bare(buf, nbytes):
    """A single LZ4 block without a frame, as z5 stores it in n5 (known finding n5-lz4)."""
    return bytes(_lz4().decode(struct.pack("<I", nbytes) + bytes(buf)))


def lz4block_decode(buf):
    """net.jpountz LZ4BlockInputStream, which the n5 specification names for lz4."""
    pos, res = 0, b""
    while True:
        need(buf[pos:pos + 8] == b"LZ4Block", "not an LZ4Block stream: %r", buf[pos:pos + 8])
        tok, clen, dlen, chk = struct.unpack("<BIII", buf[pos + 8:pos + 21])
        pos += 21
        if dlen == 0:
            need(pos == len(buf), "trailing bytes")
            return res
        body = buf[pos:pos + clen]
        pos += clen
        out = body if tok & 0xF0 == 0x10 else lz4_bare(body, dlen)
        need(len(out) == dlen and xxh32(out, 0x9747B28C) & 0x0FFFFFFF == chk, "LZ4Block checksum")
        res += out


def lz4block_encode(raw, bs=65536):
    res = b""
    level = max(0, (bs - 1).bit_length() - 10)
    for i in range(0, len(raw), bs):
        b = raw[i:i + bs]
        c = bytes(_lz4().encode(b))[4:]
        m, c = (0x20, c) if len(c) < len(b) else (0x10, b)
        res += b"LZ4Block" + struct.pack("<BIII", m | level, len(c), len(b), xxh32(b, 0x9747B28C) & 0x0FFFFFFF) + c
    return res + b"LZ4Block" + struct.pack("<BIII", 0x10 | level, 0, 0, 0)


def decode(codec, buf, nbytes):
    buf = bytes(buf)
    if codec == "raw":
        r = buf
    elif codec == "gzip":
        need(buf[:2] == b"\x1f\x8b", "not a gzip stream: %r", buf[:4])
        r = gzip.decompress(buf)
    elif codec == "zlib":
        need(buf[:1] == b"\x78", "not a zlib stream: %r", buf[:4])
        r = zlib.decompress(buf)
    elif codec == "bzip2":
        r = bz2.decompress(buf)
    elif codec == "xz":
        r = lzma.decompress(buf, format=lzma.FORMAT_XZ)
    elif codec == "blosc":
        h = blosc_header(buf)
        need(h["cbytes"] == len(buf), "blosc frame of %d bytes says %d", len(buf), h["cbytes"])
        r = _blosc().decompress(buf)
    elif codec == "lz4":
        r = lz4block_decode(buf)
    elif codec == "lz4-bare":
        r = buf if buf[:8] == b"LZ4Block" else lz4_bare(buf, nbytes)
        r = lz4block_decode(buf) if buf[:8] == b"LZ4Block" else r
    elif codec == "zstd":
        need(buf[:4] == b"\x28\xb5\x2f\xfd", "not a zstd frame: %r", buf[:4])
        r = _zstd()().decode(buf)
    else:
        raise Bad("codec " + codec)
    r = bytes(r)
    need(len(r) == nbytes, "chunk decodes to %d bytes instead of %d", len(r), nbytes)
    return r


def encode(codec, raw, o, itemsize=1):
    """o: how the encoder of somebody else might be configured."""
    raw = bytes(raw)
    if codec == "raw":
        return raw
    if codec == "gzip":
        b = io.BytesIO()
        with gzip.GzipFile(filename=o.get("fname", ""), mode="wb", fileobj=b, compresslevel=o.get("level", 6), mtime=o.get("mtime", 0)) as f:
            f.write(raw)
        return b.getvalue()
    if codec == "zlib":
        return zlib.compress(raw, o.get("level", 6))
    if codec == "bzip2":
        return bz2.compress(raw, o.get("level", 9) or 1)
    if codec == "lz4":
        return lz4block_encode(raw)
    if codec == "xz":
        return lzma.compress(raw, format=lzma.FORMAT_XZ, check=[lzma.CHECK_CRC32, lzma.CHECK_CRC64, lzma.CHECK_SHA256, lzma.CHECK_NONE][o.get("check", 1)],
                             preset=o.get("level", 1))
    if codec == "blosc":
        return bytes(_blosc().compress(raw, o.get("cname", "lz4").encode(), o.get("level", 5), o.get("shuffle", 1), o.get("blocksize", 0), o.get("typesize", itemsize)))
    if codec == "zstd":
        enc = _zstd()(o.get("level", 3), o.get("checksum", False))
        if o.get("frames", 1) > 1 and len(raw) > 1:
            h = len(raw) // 2
            return bytes(enc.encode(raw[:h])) + bytes(enc.encode(raw[h:]))
        return bytes(enc.encode(raw))
    raise Bad("codec " + codec)


N5_TYPES = {"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64"}
Z2_TYPES = {"|u1": "uint8", "<u2": "uint16", "<u4": "uint32", "<u8": "uint64", "|i1": "int8", "<i2": "int16", "<i4": "int32", "<i8": "int64",
            "<f4": "float32", "<f8": "float64"}


def load_json(path):
    with open(path, "rb") as f:
        raw = f.read()

    def nodup(pairs):
        d = dict(pairs)
        need(len(d) == len(pairs), "duplicate keys in %s", path)
        return d

    def noconst(c):
        raise Bad("%s is not JSON: %s" % (path, c))
    try:
        return json.loads(raw.decode("utf-8"), object_pairs_hook=nodup, parse_constant=noconst)
    except ValueError as e:
        raise Bad("%s is not JSON: %s" % (path, e))


def ints(v, positive=True):
    need(isinstance(v, list) and all(isinstance(x, int) and not isinstance(x, bool) and x >= (1 if positive else 0) for x in v), "not a shape: %r", v)
    return v


def files(root):
    res = set()
    for d, _, fs in os.walk(root):
        for f in fs:
            res.add(os.path.relpath(os.path.join(d, f), root))
    return res


def fill_json(v, dtype):
    dt = np.dtype(dtype)
    if dt.kind == "f":
        need(isinstance(v, (int, float)) or v in ("NaN", "Infinity", "-Infinity"), "fill_value %r", v)
        return dt.type(float(v) if isinstance(v, str) else v)
    need(isinstance(v, int) and not isinstance(v, bool), "fill_value %r of an integer array", v)
    need(np.iinfo(dt).min <= v <= np.iinfo(dt).max, "fill_value %r out of range", v)
    return dt.type(v)


class Array:
    """What a conforming reader recovers."""

    def __init__(self):
        self.shards = None
        self.stored = {}     # chunk id -> True, for the chunks that have an encoding
        self.raw = {}        # chunk id -> encoded bytes (without the n5 header)
        self.varlen = {}


def grid(shape, chunks):
    return itertools.product(*[range(-(-s // c)) for s, c in zip(shape, chunks)])


def read_n5(path, bare_lz4=False):
    a = Array()
    j = load_json(os.path.join(path, "attributes.json"))
    for k in ("dimensions", "blockSize", "dataType", "compression"):
        need(k in j, "n5 attributes lack %s", k)
    a.shape = tuple(ints(j["dimensions"], False)[::-1])
    a.chunks = tuple(ints(j["blockSize"])[::-1])
    need(len(a.shape) == len(a.chunks), "dimensions and blockSize differ in length")
    need(j["dataType"] in N5_TYPES, "dataType %r", j["dataType"])
    a.dtype = np.dtype(j["dataType"])
    a.fill = a.dtype.type(0)
    c = j["compression"]
    a.codec = c.get("type")
    a.copts = {k: v for k, v in c.items() if k != "type"}
    keys = {"raw": set(), "gzip": {"level"}, "bzip2": {"blockSize"}, "xz": {"preset"}, "lz4": {"blockSize"}, "zstd": {"level"},
            "blosc": {"cname", "clevel", "shuffle", "blocksize", "nthreads"}}
    need(a.codec in keys, "compression type %r", a.codec)
    need(keys[a.codec] <= set(a.copts) <= keys[a.codec] | {"useZlib"}, "compression %r", c)
    a.attrs = {k: v for k, v in j.items() if k not in ("dimensions", "blockSize", "dataType", "compression")}
    a.data = np.full(a.shape if META_ONLY is False else (1,) * len(a.shape), a.fill, dtype=a.dtype)
    rest = files(path) - {"attributes.json"}
    for cid in grid(a.shape, a.chunks):
        name = "/".join(str(i) for i in cid[::-1])
        if name not in rest:
            continue
        rest.discard(name)
        with open(os.path.join(path, name), "rb") as f:
            buf = f.read()
        mode, nd = struct.unpack(">HH", buf[:4])
        need(nd == len(a.shape), "block %s has %d dimensions", name, nd)
        bs = struct.unpack(">%dI" % nd, buf[4:4 + 4 * nd])[::-1]
        valid = tuple(min(c, s - i * c) for i, c, s in zip(cid, a.chunks, a.shape))
        need(bs == valid, "block %s has shape %s instead of %s", name, bs, valid)
        pos = 4 + 4 * nd
        n = int(np.prod(bs))
        if mode == 1:
            n, = struct.unpack(">I", buf[pos:pos + 4])
            pos += 4
        else:
            need(mode == 0, "block mode %d", mode)
        codec = "zlib" if a.codec == "gzip" and a.copts.get("useZlib") else a.codec
        a.raw[cid] = buf[pos:]
        a.stored[cid] = True
        if a.codec == "lz4" and bare_lz4:
            codec = "lz4-bare"
        raw = decode(codec, buf[pos:], n * a.dtype.itemsize)
        el = np.frombuffer(raw, dtype=a.dtype.newbyteorder(">")).astype(a.dtype)
        if mode == 1:
            a.varlen[cid] = el
            continue
        sl = tuple(slice(i * c, i * c + v) for i, c, v in zip(cid, a.chunks, valid))
        a.data[sl] = el.reshape(bs)
    need(not rest, "unexpected files %s", sorted(rest)[:5])
    return a


def read_z2(path):
    a = Array()
    j = load_json(os.path.join(path, ".zarray"))
    need(set(j) - {"dimension_separator"} == {"zarr_format", "shape", "chunks", "dtype", "compressor", "fill_value", "order", "filters"},
         ".zarray has keys %s", sorted(j))
    need(j["zarr_format"] == 2 and type(j["zarr_format"]) is int, "zarr_format %r", j["zarr_format"])
    a.shape, a.chunks = tuple(ints(j["shape"], False)), tuple(ints(j["chunks"]))
    need(len(a.shape) == len(a.chunks), "shape and chunks differ in length")
    need(j["dtype"] in Z2_TYPES, "dtype %r", j["dtype"])
    a.dtype = np.dtype(Z2_TYPES[j["dtype"]])
    need(j["order"] == "C" and j["filters"] in (None, []), "order / filters")
    a.fill = fill_json(j["fill_value"], a.dtype)
    sep = j.get("dimension_separator", ".")
    need(sep in (".", "/"), "dimension_separator %r", sep)
    c = j["compressor"]
    if c is None:
        a.codec, a.copts = "raw", {}
    else:
        need(isinstance(c, dict) and "id" in c, "compressor %r", c)
        a.codec = {"bz2": "bzip2"}.get(c["id"], c["id"])
        a.copts = {k: v for k, v in c.items() if k != "id"}
        keys = {"gzip": {"level"}, "zlib": {"level"}, "bzip2": {"level"}, "zstd": {"level"}, "blosc": {"cname", "clevel", "shuffle", "blocksize"}}
        need(a.codec in keys and set(a.copts) == keys[a.codec], "compressor %r", c)
    za = os.path.join(path, ".zattrs")
    a.attrs = load_json(za) if os.path.exists(za) else {}
    need(isinstance(a.attrs, dict), ".zattrs is not an object")
    a.data = np.full(a.shape if META_ONLY is False else (1,) * len(a.shape), a.fill, dtype=a.dtype)
    rest = files(path) - {".zarray", ".zattrs"}
    _dense(a, path, rest, lambda cid: sep.join(str(i) for i in cid), "<")
    need(not rest, "unexpected files %s", sorted(rest)[:5])
    return a


def _place(a, cid, raw, endian="<"):
    full = np.frombuffer(raw, dtype=a.dtype.newbyteorder(endian)).astype(a.dtype).reshape(a.chunks)
    valid = tuple(min(c, s - i * c) for i, c, s in zip(cid, a.chunks, a.shape))
    sl = tuple(slice(i * c, i * c + v) for i, c, v in zip(cid, a.chunks, valid))
    a.data[sl] = full[tuple(slice(0, v) for v in valid)]


def _dense(a, path, rest, key, endian):
    nb = int(np.prod(a.chunks)) * a.dtype.itemsize
    for cid in grid(a.shape, a.chunks):
        name = key(cid)
        if name not in rest:
            continue
        rest.discard(name)
        with open(os.path.join(path, name), "rb") as f:
            buf = f.read()
        a.raw[cid], a.stored[cid] = buf, True
        _place(a, cid, decode(a.codec, buf, nb), endian)


def _v3_inner(a, codecs):
    need(isinstance(codecs, list) and 1 <= len(codecs) <= 2, "codecs %r", codecs)
    b = codecs[0]
    need(b.get("name") == "bytes" and set(b) <= {"name", "configuration"}, "codec %r", b)
    if a.dtype.itemsize > 1:
        need(b.get("configuration") == {"endian": "little"}, "bytes codec %r", b)
    if len(codecs) == 1:
        a.codec, a.copts = "raw", {}
        return
    c = codecs[1]
    a.codec, a.copts = c["name"], dict(c.get("configuration", {}))
    keys = {"gzip": {"level"}, "zstd": {"level", "checksum"}, "blosc": {"cname", "clevel", "shuffle", "blocksize", "typesize"}}
    need(a.codec in keys, "codec %r", c)
    need(set(a.copts) == keys[a.codec] or (a.codec == "blosc" and a.copts.get("shuffle") == "noshuffle" and set(a.copts) | {"typesize"} == keys[a.codec])
         or (a.codec == "zstd" and set(a.copts) == {"level"}), "codec %r", c)
    if a.codec == "blosc":
        need(a.copts["cname"] in ("lz4", "lz4hc", "blosclz", "zstd", "snappy", "zlib"), "codec %r", c)
        need(a.copts["shuffle"] in ("noshuffle", "shuffle", "bitshuffle"), "codec %r", c)
        if a.copts["shuffle"] != "noshuffle":
            need(a.copts["typesize"] == a.dtype.itemsize, "codec %r", c)


def read_z3(path):
    a = Array()
    j = load_json(os.path.join(path, "zarr.json"))
    must = {"zarr_format", "node_type", "shape", "data_type", "chunk_grid", "chunk_key_encoding", "fill_value", "codecs"}
    need(must <= set(j) <= must | {"attributes", "storage_transformers", "dimension_names"}, "zarr.json has keys %s", sorted(j))
    need(j["zarr_format"] == 3 and j["node_type"] == "array", "zarr_format / node_type")
    a.shape = tuple(ints(j["shape"], False))
    need(j["data_type"] in N5_TYPES, "data_type %r", j["data_type"])
    a.dtype = np.dtype(j["data_type"])
    a.fill = fill_json(j["fill_value"], a.dtype)
    g = j["chunk_grid"]
    need(g["name"] == "regular" and set(g["configuration"]) == {"chunk_shape"}, "chunk_grid %r", g)
    outer = tuple(ints(g["configuration"]["chunk_shape"]))
    need(len(outer) == len(a.shape), "chunk_shape %r", outer)
    e = j["chunk_key_encoding"]
    need(e["name"] in ("default", "v2") and set(e) <= {"name", "configuration"}, "chunk_key_encoding %r", e)
    sep = e.get("configuration", {}).get("separator", "/" if e["name"] == "default" else ".")
    need(sep in (".", "/"), "separator %r", sep)

    def key(cid):
        parts = [str(i) for i in cid]
        return sep.join((["c"] if e["name"] == "default" else []) + parts)
    a.attrs = j.get("attributes", {})
    need(isinstance(a.attrs, dict), "attributes")
    a.data = np.full(a.shape if META_ONLY is False else (1,) * len(a.shape), a.fill, dtype=a.dtype)
    rest = files(path) - {"zarr.json"}
    codecs = j["codecs"]
    need(isinstance(codecs, list) and codecs, "codecs %r", codecs)
    if codecs[0].get("name") == "sharding_indexed":
        need(len(codecs) == 1, "codecs %r", codecs)
        cfg = codecs[0]["configuration"]
        need({"chunk_shape", "codecs", "index_codecs"} <= set(cfg) <= {"chunk_shape", "codecs", "index_codecs", "index_location"}, "sharding %r", cfg)
        need(cfg.get("index_location", "end") == "end", "index_location")
        ic = cfg["index_codecs"]
        need(len(ic) == 2 and ic[0] == {"name": "bytes", "configuration": {"endian": "little"}} and ic[1].get("name") == "crc32c", "index_codecs %r", ic)
        a.chunks = tuple(ints(cfg["chunk_shape"]))
        need(len(a.chunks) == len(outer) and all(o % c == 0 for o, c in zip(outer, a.chunks)), "inner chunks %r of shards %r", a.chunks, outer)
        a.shards = outer
        _v3_inner(a, cfg["codecs"])
        _sharded(a, path, rest, key)
    else:
        a.chunks = outer
        _v3_inner(a, codecs)
        _dense(a, path, rest, key, "<")
    need(not rest, "unexpected files %s", sorted(rest)[:5])
    return a


def parse_shard(buf, nslots, what="shard"):
    """[(offset, nbytes) or None], strictly checked."""
    ilen = 16 * nslots + 4
    need(len(buf) >= ilen, "%s of %d bytes is too short for its index", what, len(buf))
    idx = buf[-ilen:]
    need(struct.unpack("<I", idx[-4:])[0] == crc32c(idx[:-4]), "%s has a wrong index checksum", what)
    v = struct.unpack("<%dQ" % (2 * nslots), idx[:-4])
    res, spans = [], []
    for k in range(nslots):
        o, n = v[2 * k], v[2 * k + 1]
        if o == 2 ** 64 - 1 or n == 2 ** 64 - 1:
            need(o == n, "%s slot %d is half empty", what, k)
            res.append(None)
            continue
        need(o + n <= len(buf) - ilen, "%s slot %d is out of bounds", what, k)
        res.append((o, n))
        spans.append((o, o + n))
    spans.sort()
    for (a0, a1), (b0, b1) in zip(spans, spans[1:]):
        need(a1 <= b0, "%s has overlapping slots", what)
    return res


def _sharded(a, path, rest, key):
    cps = tuple(o // c for o, c in zip(a.shards, a.chunks))
    ns = int(np.prod(cps))
    nb = int(np.prod(a.chunks)) * a.dtype.itemsize
    cgrid = [-(-s // c) for s, c in zip(a.shape, a.chunks)]
    a.shard_files = {}
    for sid in grid(a.shape, a.shards):
        name = key(sid)
        if name not in rest:
            continue
        rest.discard(name)
        with open(os.path.join(path, name), "rb") as f:
            buf = f.read()
        slots = parse_shard(buf, ns, "shard %s" % name)
        need(any(s is not None for s in slots), "shard %s is empty", name)
        used = 0
        for k, s in enumerate(slots):
            loc = np.unravel_index(k, cps)
            cid = tuple(int(si * n + l) for si, n, l in zip(sid, cps, loc))
            if s is None:
                continue
            need(all(i < n for i, n in zip(cid, cgrid)), "shard %s stores a chunk outside of the array", name)
            enc = buf[s[0]:s[0] + s[1]]
            used += s[1]
            a.raw[cid], a.stored[cid] = enc, True
            _place(a, cid, decode(a.codec, enc, nb))
        a.shard_files[sid] = dict(size=len(buf), used=used, index=16 * ns + 4)


def read(path, bare_lz4=False):
    if os.path.exists(os.path.join(path, "zarr.json")):
        return read_z3(path)
    if os.path.exists(os.path.join(path, ".zarray")):
        return read_z2(path)
    return read_n5(path, bare_lz4)


# ---------------------------------------------------------------------------------------------
# writers: w is a dict of choices, all of which conform (unless they are named in w["unsupported"])
# ---------------------------------------------------------------------------------------------

def dump(path, j, w):
    items = list(j.items())
    if w.get("shuffle_keys"):
        np.random.default_rng(w["shuffle_keys"]).shuffle(items)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(dict(items), f, indent=w.get("indent"))


def _store(root, name, buf):
    p = os.path.join(root, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(buf)


def write_n5(path, a, chunks, codec, w, omit=(), attrs=None):
    """a: array in numpy axis order.  omit: ids of chunks that are not stored."""
    dt = a.dtype
    o = w.get("enc", {})
    comp = {"type": codec}
    if codec == "gzip":
        comp["level"] = o.get("level", -1)
        if "useZlib" in w:
            comp["useZlib"] = w["useZlib"]
    elif codec == "bzip2":
        comp["blockSize"] = o.get("level", 9)
    elif codec == "lz4":
        comp["blockSize"] = 65536
    elif codec == "xz":
        comp["preset"] = o.get("level", 6)
    elif codec == "zstd":
        comp["level"] = o.get("level", 3)
    elif codec == "blosc":
        comp.update(cname=o.get("cname", "lz4"), clevel=o.get("level", 5), shuffle=o.get("shuffle", 1))
        if w.get("optional", True):
            comp.update(blocksize=o.get("blocksize", 0), nthreads=1)
    j = dict(dimensions=list(a.shape[::-1]), blockSize=list(chunks[::-1]), dataType=dt.name)
    if w.get("old_compression") and codec in ("gzip", "raw"):
        j["compressionType"] = codec
    else:
        j["compression"] = comp
    j.update(attrs or {})
    dump(os.path.join(path, "attributes.json"), j, w)
    real = "zlib" if codec == "gzip" and w.get("useZlib") and "compression" in j else codec
    for cid in grid(a.shape, chunks):
        if cid in omit:
            continue
        part = a[tuple(slice(i * c, min((i + 1) * c, s)) for i, c, s in zip(cid, chunks, a.shape))]
        head = struct.pack(">HH", 0, a.ndim) + struct.pack(">%dI" % a.ndim, *part.shape[::-1])
        raw = np.ascontiguousarray(part).astype(dt.newbyteorder(">")).tobytes()
        _store(path, "/".join(str(i) for i in cid[::-1]), head + encode(real, raw, o, dt.itemsize))


def jfill(v):
    v = v.item() if hasattr(v, "item") else v
    if isinstance(v, float):
        if v != v:
            return "NaN"
        if v in (float("inf"), float("-inf")):
            return "Infinity" if v > 0 else "-Infinity"
    return v


def pad(part, chunks, fill, garbage=None):
    full = np.full(chunks, fill, dtype=part.dtype)
    if garbage is not None:
        rng = np.random.default_rng(garbage)
        full[...] = rng.integers(0, 100, size=full.shape).astype(part.dtype)
    full[tuple(slice(0, n) for n in part.shape)] = part
    return full


def write_z2(path, a, chunks, codec, fill, w, omit=(), attrs=None):
    dt = a.dtype
    o = w.get("enc", {})
    endian = w.get("endian", "<")
    kind = {"i": "i", "u": "u", "f": "f"}[dt.kind]
    j = dict(zarr_format=2, shape=list(a.shape), chunks=list(chunks), dtype=("|" if dt.itemsize == 1 else endian) + kind + str(dt.itemsize),
             order=w.get("order", "C"), filters=w.get("filters", None), fill_value=jfill(fill) if fill is not None else None)
    if codec == "raw":
        j["compressor"] = None
    elif codec == "blosc":
        j["compressor"] = dict(id="blosc", cname=o.get("cname", "lz4"), clevel=o.get("level", 5), shuffle=o.get("shuffle", 1))
        if w.get("optional", True):
            j["compressor"]["blocksize"] = o.get("blocksize", 0)
    else:
        j["compressor"] = dict(id={"bzip2": "bz2"}.get(codec, codec), level=o.get("level", 3))
        if codec == "zstd" and w.get("optional", True):
            j["compressor"]["checksum"] = o.get("checksum", False)
    sep = w.get("sep")
    if sep is not None:
        j["dimension_separator"] = sep
    dump(os.path.join(path, ".zarray"), j, w)
    if attrs:
        dump(os.path.join(path, ".zattrs"), attrs, w)
    for cid in grid(a.shape, chunks):
        if cid in omit:
            continue
        part = a[tuple(slice(i * c, min((i + 1) * c, s)) for i, c, s in zip(cid, chunks, a.shape))]
        full = pad(part, chunks, 0 if fill is None else fill, w.get("garbage")).astype(dt.newbyteorder(endian))
        raw = full.tobytes(order=w.get("order", "C"))
        for flt in w.get("filters") or []:
            assert flt["id"] == "delta"
            fl = full.ravel()
            raw = np.concatenate([fl[:1], np.diff(fl)]).astype(full.dtype).tobytes()
        _store(path, (sep or ".").join(str(i) for i in cid), encode(codec, raw, o, dt.itemsize))


def _v3_codecs(codec, dt, o, w):
    b = {"name": "bytes"}
    if dt.itemsize > 1 or w.get("optional", True):
        b["configuration"] = {"endian": "big" if w.get("endian") == ">" else "little"}
    res = [b]
    if w.get("transpose") is not None:
        res.insert(0, {"name": "transpose", "configuration": {"order": w["transpose"]}})
    if codec in ("gzip", "zstd"):
        res.append({"name": codec, "configuration": {"level": o.get("level", 3)}})
        if codec == "zstd":
            res[-1]["configuration"]["checksum"] = o.get("checksum", False)
    elif codec == "blosc":
        res.append({"name": "blosc", "configuration": dict(cname=o.get("cname", "lz4"), clevel=o.get("level", 5), blocksize=o.get("blocksize", 0),
                                                            shuffle=["noshuffle", "shuffle", "bitshuffle"][o.get("shuffle", 1)], typesize=dt.itemsize)})
    if w.get("crc"):
        res.append({"name": "crc32c"})
    return res


def _v3_encode(full, codec, o, w):
    dt = full.dtype
    if w.get("transpose") is not None:
        full = full.transpose(w["transpose"])
    raw = np.ascontiguousarray(full).astype(dt.newbyteorder(w.get("endian", "<"))).tobytes()
    enc = encode(codec, raw, o, dt.itemsize)
    if w.get("crc"):
        enc += struct.pack("<I", crc32c(enc))
    return enc


def write_z3(path, a, chunks, codec, fill, w, shards=None, omit=(), attrs=None):
    dt = a.dtype
    o = w.get("enc", {})
    j = dict(zarr_format=3, node_type="array", shape=list(a.shape), data_type=dt.name, fill_value=jfill(fill),
             chunk_grid=dict(name="regular", configuration=dict(chunk_shape=list(shards or chunks))))
    name, sep = w.get("encoding", "default"), w.get("sep")
    j["chunk_key_encoding"] = {"name": name}
    if sep is not None:
        j["chunk_key_encoding"]["configuration"] = {"separator": sep}
    sep = sep or {"default": "/", "v2": "."}[name]
    if w.get("optional", True):
        j["attributes"] = attrs or {}
        j["storage_transformers"] = []
        j["dimension_names"] = [None] * a.ndim
    elif attrs:
        j["attributes"] = attrs
    codecs = _v3_codecs(codec, dt, o, w)
    if shards:
        cfg = dict(chunk_shape=list(chunks), codecs=codecs,
                   index_codecs=[{"name": "bytes", "configuration": {"endian": "little"}}] + ([] if w.get("index_nocrc") else [{"name": "crc32c"}]))
        if w.get("index_start"):
            cfg["index_location"] = "start"
        elif w.get("optional", True):
            cfg["index_location"] = "end"
        codecs = [{"name": "sharding_indexed", "configuration": cfg}]
    j["codecs"] = codecs
    dump(os.path.join(path, "zarr.json"), j, w)

    def key(cid):
        return sep.join((["c"] if name == "default" else []) + [str(i) for i in cid])

    def blob(cid):
        part = a[tuple(slice(i * c, min((i + 1) * c, s)) for i, c, s in zip(cid, chunks, a.shape))]
        return _v3_encode(pad(part, chunks, fill, w.get("garbage")), codec, o, w)
    if not shards:
        for cid in grid(a.shape, chunks):
            if cid not in omit:
                _store(path, key(cid), blob(cid))
        return
    cps = tuple(s // c for s, c in zip(shards, chunks))
    cgrid = [-(-s // c) for s, c in zip(a.shape, chunks)]
    rng = np.random.default_rng(w.get("order_seed", 0))
    for sid in grid(a.shape, shards):
        ns = int(np.prod(cps))
        blobs = {}
        for k in range(ns):
            loc = np.unravel_index(k, cps)
            cid = tuple(int(s * n + l) for s, n, l in zip(sid, cps, loc))
            if cid in omit or any(i >= n for i, n in zip(cid, cgrid)):
                continue
            blobs[k] = blob(cid)
        if not blobs and not w.get("empty_shards"):
            continue
        order = list(blobs)
        if "order_seed" in w:
            rng.shuffle(order)
        ilen = 16 * ns + (0 if w.get("index_nocrc") else 4)
        body, idx = b"", [(2 ** 64 - 1, 2 ** 64 - 1)] * ns
        base = ilen if w.get("index_start") else 0
        for k in order:
            if w.get("gaps"):
                body += bytes(int(rng.integers(0, 9)))
            idx[k] = (base + len(body), len(blobs[k]))
            body += blobs[k]
        ib = struct.pack("<%dQ" % (2 * ns), *[x for p in idx for x in p])
        if not w.get("index_nocrc"):
            ib += struct.pack("<I", crc32c(ib))
        _store(path, key(sid), ib + body if w.get("index_start") else body + ib)

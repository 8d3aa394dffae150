// parts: zds
// P14: chunk-level interface of a C++ dataset against a per-chunk model and the region interface
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include "zds.hpp"

using namespace zds;
namespace fs = std::filesystem;
namespace ma = z5::multiarray;

template<class T> struct Chunk {
    bool exists = false, varlen = false;
    bool padded = true;           // the padding of a stored zarr edge chunk is known
    std::vector<T> data;          // zarr: the full chunk; n5: the clipped chunk; varlen: the elements
};

template<class T> struct World {
    Cfg c; T fill; std::map<Shape, Chunk<T>> chunks;
    explicit World(const Cfg & c) : c(c), fill(T(c.zarr() ? c.fill : 0)) {}
    Shape box(const Shape & id) const { return c.zarr() ? c.chunks : chunkRegion(c, id).shape; }
    T at(const Shape & id, const Shape & local) { auto & k = chunks[id]; return k.exists ? k.data[flat(local, box(id))] : fill; }
    void set(const Shape & id, std::vector<T> v, bool padded) {
        auto & k = chunks[id];
        k = Chunk<T>();
        bool all = true;
        for(const T & x : v) all &= same(x, fill);
        if(all) return;
        k.exists = true; k.data = std::move(v); k.padded = padded;
    }
    // the chunks that intersect a region
    std::vector<Shape> touched(const Region & r) const {
        std::vector<Shape> out;
        eachPos(c.grid(), [&](const Shape & id) {
            const auto k = chunkRegion(c, id);
            for(std::size_t d = 0; d < c.nd(); ++d) if(k.begin[d] >= r.begin[d] + r.shape[d] || r.begin[d] >= k.begin[d] + k.shape[d]) return;
            out.push_back(id);
        });
        return out;
    }
    bool covers(const Region & r, const Shape & id) const {
        const auto k = chunkRegion(c, id);
        for(std::size_t d = 0; d < c.nd(); ++d) if(k.begin[d] < r.begin[d] || k.begin[d] + k.shape[d] > r.begin[d] + r.shape[d]) return false;
        return true;
    }
};

static std::vector<char> slurp(const fs::path & p) { std::ifstream f(p, std::ios::binary); return {std::istreambuf_iterator<char>(f), {}}; }

template<class T> static void check(World<T> & w, const z5::Dataset & ds, const Shape & id) {
    const Cfg & c = w.c;
    auto & k = w.chunks[id];
    const auto r = chunkRegion(c, id);
    const Shape box = w.box(id);
    PBT_CHECK(ds.chunkExists(id) == k.exists, "chunk " << show(id) << (k.exists ? " does not exist" : " exists"));
    std::size_t n = 77;
    const bool vl = ds.checkVarlenChunk(id, n);
    PBT_CHECK(vl == (k.exists && k.varlen), "chunk " << show(id) << " varlen: " << vl);
    PBT_CHECK(n == (vl ? k.data.size() : prod(r.shape)), "size of chunk " << show(id) << " from checkVarlenChunk: " << n);
    // shapes, offsets, sizes
    Shape s; ds.getChunkShape(id, s);
    PBT_CHECK(s == r.shape && ds.getChunkSize(id) == prod(r.shape), "shape of chunk " << show(id) << ": " << show(s));
    for(std::size_t d = 0; d < c.nd(); ++d) PBT_CHECK(ds.getChunkShape(id, d) == r.shape[d], "shape of chunk " << show(id) << " along " << d);
    if(c.fmt != 0 || k.exists) {
        ds.getChunkShape(id, s, true);
        PBT_CHECK(s == r.shape, "shape of chunk " << show(id) << " from its header: " << show(s));
        for(std::size_t d = 0; d < c.nd(); ++d) PBT_CHECK(ds.getChunkShape(id, d, true) == r.shape[d], "shape of chunk " << show(id) << " along " << d << " from its header");
    }
    Shape off; ds.getChunkOffset(id, off);
    PBT_CHECK(off == r.begin, "offset of chunk " << show(id) << ": " << show(off));
    // the stored bytes
    std::vector<char> raw{'x'};
    ds.readRawChunk(id, raw);
    PBT_CHECK(raw.empty() == !k.exists, "raw bytes of chunk " << show(id) << ": " << raw.size());
    fs::path p; ds.chunkPath(id, p);
    if(c.fmt != 3) {
        PBT_CHECK(fs::exists(p) == k.exists, "file of chunk " << show(id));
        if(k.exists) PBT_CHECK(slurp(p) == raw, "raw bytes of chunk " << show(id) << " differ from its file");
    }
    // the chunk itself, into a buffer of exactly its size
    const std::size_t want = k.exists && k.varlen ? k.data.size() : prod(box);
    std::unique_ptr<T[]> m(new T[want]);
    bool threw = false, isVarlen = false;
    try { isVarlen = ds.readChunk(id, m.get()); } catch(const std::exception &) { threw = true; }
    PBT_CHECK(threw == !k.exists, "readChunk of chunk " << show(id) << (threw ? " threw" : " did not throw"));
    if(k.exists) {
        PBT_CHECK(isVarlen == k.varlen, "readChunk of chunk " << show(id) << " returns " << isVarlen);
        if(k.varlen) { for(std::size_t i = 0; i < want; ++i) PBT_CHECK(same(m[i], k.data[i]), "varlen chunk " << show(id) << " element " << i); }
        else eachPos(box, [&](const Shape & q) {
            bool inside = true;
            for(std::size_t d = 0; d < c.nd(); ++d) inside &= q[d] < r.shape[d];
            if(inside || k.padded) PBT_CHECK(same(m[flat(q, box)], k.data[flat(q, box)]), "chunk " << show(id) << " at " << show(q) << (inside ? "" : " (padding)"));
        });
        if(c.zarr()) {
            // decoding the stored bytes gives the same
            std::unique_ptr<T[]> m2(new T[want]);
            if(raw.size() % 2) ds.decompress(raw, m2.get(), want); else ds.decompress(raw.data(), raw.size(), m2.get(), want);
            PBT_CHECK(std::memcmp(m.get(), m2.get(), want * sizeof(T)) == 0, "decompress() of chunk " << show(id) << " differs from readChunk");
        }
    }
    // and through the region interface
    std::unique_ptr<T[]> q(new T[prod(r.shape)]);
    threw = false;
    try { ma::readSubarray<T>(ds, ma::makeView(q.get(), r.shape), r.begin.begin(), 1); } catch(const std::exception &) { threw = true; }
    PBT_CHECK(threw == (k.exists && k.varlen), "reading the region of chunk " << show(id) << (threw ? " threw" : " did not throw"));
    if(!threw) eachPos(r.shape, [&](const Shape & l) { PBT_CHECK(same(q[flat(l, r.shape)], w.at(id, l)), "region read of chunk " << show(id) << " at " << show(l)); });
}

template<class T> static void checkShard(World<T> & w, const z5::Dataset & ds, const Shape & shard) {
    const Cfg & c = w.c;
    Shape per(c.nd());
    for(std::size_t d = 0; d < c.nd(); ++d) per[d] = c.shards[d] / c.chunks[d];
    PBT_CHECK(ds.isSharded() && ds.shardShape() == c.shards, "shard shape");
    std::vector<char> buf; std::vector<std::size_t> off, len;
    const bool there = ds.readShardRaw(shard, buf, off, len);
    std::vector<std::vector<char>> blobs{{'x'}, {'y', 'z'}};
    ds.readShardBlobs(shard, blobs);
    bool any = false;
    PBT_CHECK(blobs.size() == prod(per) && (!there || (off.size() == prod(per) && len.size() == prod(per))), "number of slots");
    fs::path p0; bool have = false;
    eachPos(per, [&](const Shape & l) {
        const std::size_t slot = flat(l, per);
        Shape id(c.nd());
        bool in = true;
        const auto grid = c.grid();
        for(std::size_t d = 0; d < c.nd(); ++d) { id[d] = shard[d] * per[d] + l[d]; in &= id[d] < grid[d]; }
        const bool e = in && w.chunks[id].exists;
        any |= e;
        PBT_CHECK(blobs[slot].empty() == !e, "slot " << slot << " of shard " << show(shard) << " has " << blobs[slot].size() << " bytes");
        if(there) {
            PBT_CHECK((len[slot] == 0) == !e && off[slot] + len[slot] <= buf.size(), "slot " << slot << " of shard " << show(shard));
            PBT_CHECK(std::string(buf.data() + off[slot], len[slot]) == std::string(blobs[slot].data(), blobs[slot].size()), "slot " << slot << " of shard " << show(shard) << " differs between readShardRaw and readShardBlobs");
        }
        if(in) {
            fs::path p; ds.chunkPath(id, p);
            PBT_CHECK(!have || p == p0, "chunks of one shard have different paths");
            p0 = p; have = true;
            if(e) {
                std::vector<char> raw; ds.readRawChunk(id, raw);
                PBT_CHECK(raw == blobs[slot], "raw bytes of chunk " << show(id));
                if(w.chunks[id].padded) {
                    std::vector<char> b;
                    PBT_CHECK(ds.makeChunkBlob(id, w.chunks[id].data.data(), b) && !b.empty(), "makeChunkBlob of a chunk that is not empty");
                    std::vector<T> m(prod(c.chunks));
                    ds.decompress(b, m.data(), m.size());
                    for(std::size_t i = 0; i < m.size(); ++i) PBT_CHECK(same(m[i], w.chunks[id].data[i]), "makeChunkBlob");
                }
            } else {
                std::vector<T> v(prod(c.chunks), w.fill); std::vector<char> b;
                PBT_CHECK(!ds.makeChunkBlob(id, v.data(), b), "makeChunkBlob of an empty chunk");
            }
        }
    });
    PBT_CHECK(there == any && fs::exists(p0) == any, "shard " << show(shard) << (there ? " exists" : " does not exist"));
}

template<class T> static void chunks(pbt::Gen & g, const Cfg & c) {
    g.desc << c.str();
    World<T> w(c);
    auto ds = create(c, g.scratch + "/x");
    decltype(ds) other;
    bool byChunk = false, byRegion = false, edge = false;
    const int n = g.range(2, 12);
    for(int i = 0; i < n; ++i) {
        const int op = g.draw(12);
        if(g.flip(1, 5)) { if(!other) other = open(g.scratch + "/x"); std::swap(ds, other); }
        Maker<T> mk(g, w.fill);
        if(op <= 3) {           // a whole chunk, with any padding
            const auto id = genChunk(g, c); const Shape box = w.box(id), in = chunkRegion(c, id).shape;
            const bool pad = g.flip();
            std::vector<T> v(prod(box), w.fill);
            eachPos(box, [&](const Shape & q) { bool inside = true; for(std::size_t d = 0; d < c.nd(); ++d) inside &= q[d] < in[d]; if(inside || pad) v[flat(q, box)] = mk(); });
            g.desc << "\nchunk " << show(id) << " mode " << mk.mode << " padding " << pad;
            std::unique_ptr<T[]> m(new T[v.size()]); std::copy(v.begin(), v.end(), m.get());
            ds->writeChunk(id, m.get());
            w.set(id, v, true);
            byChunk = true; edge |= in != c.chunks;
        } else if(op <= 6) {    // a region or a scalar
            const auto r = genRegion(g, c.shape);
            const bool scalar = op == 6; const T sv = mk();
            std::vector<T> v(prod(r.shape), sv);
            if(!scalar) for(auto & x : v) x = mk();
            g.desc << "\n" << (scalar ? "scalar " : "write ") << show(r.begin) << show(r.shape) << " mode " << mk.mode;
            const auto ids = w.touched(r);
            bool refuse = false;
            for(const auto & id : ids) refuse |= w.chunks[id].varlen && !w.covers(r, id);
            if(refuse) continue;    // needs the content of a varlen chunk (P15)
            const int th = g.flip(1, 4) ? g.range(2, 4) : 1;
            if(scalar) ma::writeScalar<T>(*ds, r.begin.begin(), r.shape.begin(), sv, th);
            else ma::writeSubarray<T>(*ds, ma::makeView(static_cast<const T *>(v.data()), r.shape), r.begin.begin(), th);
            for(const auto & id : ids) {
                const auto cr = chunkRegion(c, id); const Shape box = w.box(id);
                auto & k = w.chunks[id];
                std::vector<T> d = k.exists && !k.varlen ? k.data : std::vector<T>(prod(box), w.fill);
                const bool known = (!k.exists || k.varlen || k.padded) && !(k.exists && cr.shape != box);
                eachPos(cr.shape, [&](const Shape & l) {
                    Shape p = add(cr.begin, l);
                    for(std::size_t x = 0; x < c.nd(); ++x) { if(p[x] < r.begin[x] || p[x] >= r.begin[x] + r.shape[x]) return; p[x] -= r.begin[x]; }
                    d[flat(l, box)] = v[flat(p, r.shape)];
                });
                if(cr.shape != box) {
                    // what z5 keeps outside of the array is its business, and so is whether that alone keeps a chunk alive
                    bool in = true, all = true;
                    eachPos(box, [&](const Shape & q) { bool inside = true; for(std::size_t x = 0; x < c.nd(); ++x) inside &= q[x] < cr.shape[x]; (inside ? in : all) &= same(d[flat(q, box)], w.fill); });
                    if(in && !all) { ds->removeChunk(id); w.chunks[id] = Chunk<T>(); continue; }
                }
                w.set(id, d, known);
            }
            byRegion = true;
        } else if(op == 7) {
            const auto id = genChunk(g, c);
            g.desc << "\nremove " << show(id);
            ds->removeChunk(id);
            w.chunks[id] = Chunk<T>();
        } else if(op <= 9) {
            if(c.fmt != 0) continue;
            const auto id = genChunk(g, c);
            const std::size_t full = prod(chunkRegion(c, id).shape);
            const std::size_t len = g.draw(4) == 0 ? full : g.draw(4) == 0 ? 0 : g.range(1, 3 * full + 2);
            std::unique_ptr<T[]> m(new T[len]);
            for(std::size_t x = 0; x < len; ++x) m[x] = mk();
            g.desc << "\nvarlen " << show(id) << " length " << len;
            ds->writeChunk(id, m.get(), true, len);
            Chunk<T> k; k.exists = k.varlen = len > 0; k.data.assign(m.get(), m.get() + len);
            w.chunks[id] = k;
            edge = true; byChunk = true;
        } else if(op == 10) {
            ds = open(g.scratch + "/x", g.flip() ? "a" : "r+");
            g.desc << "\nreopen";
        } else if(c.fmt == 3) {
            // move the stored bytes of a shard through the shard interface
            Shape shard;
            const auto id = genChunk(g, c);
            for(std::size_t d = 0; d < c.nd(); ++d) shard.push_back(id[d] * c.chunks[d] / c.shards[d]);
            std::vector<std::vector<char>> blobs;
            ds->readShardBlobs(shard, blobs);
            g.desc << "\nrewrite shard " << show(shard);
            Shape per(c.nd()), l(c.nd());
            for(std::size_t d = 0; d < c.nd(); ++d) { per[d] = c.shards[d] / c.chunks[d]; l[d] = id[d] % per[d]; }
            if(g.flip()) { blobs[flat(l, per)].clear(); w.chunks[id] = Chunk<T>(); g.desc << " without " << show(id); }
            { std::lock_guard<std::mutex> lock(*ds->shardMutex(shard)); ds->writeShardBlobs(shard, blobs); }
        }
        for(int k = 0; k < 2; ++k) check(w, *ds, genChunk(g, c));
    }
    std::set<fs::path> paths; std::set<Shape> shards;
    eachPos(c.grid(), [&](const Shape & id) {
        check(w, *ds, id);
        fs::path p; ds->chunkPath(id, p); paths.insert(p);
        Shape s; if(c.fmt == 3) for(std::size_t d = 0; d < c.nd(); ++d) s.push_back(id[d] * c.chunks[d] / c.shards[d]); else s = id;
        if(shards.insert(s).second && c.fmt == 3) checkShard(w, *ds, s);
    });
    PBT_CHECK(paths.size() == shards.size(), shards.size() << " objects have " << paths.size() << " paths");
    g.nontrivial = byChunk && (byRegion || edge);
    g.label("fmt" + std::to_string(c.fmt)); g.label("codec:" + c.codec); g.label("type:" + c.dtype); g.label("edge-or-varlen", edge); g.label("mixed", byChunk && byRegion);
}

PBT_TEST(chunks) {
    GenOpt o; o.maxExtent = {0, 40, 14, 8, 5, 4}; o.maxChunks = 60;
    const auto c = genCfg(g, o);
    dispatch(c.dtype, [&](auto t) { chunks<decltype(t)>(g, c); });
}

PBT_MAIN

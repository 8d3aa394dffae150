// parts: zds
// P12: thread counts do not matter; concurrent operations on disjoint chunks behave like some sequential order
#define ZDS_NO_COMPLEX
#include <atomic>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include "zds.hpp"
#include "z5/util/functions.hxx"

using namespace zds;
namespace ma = z5::multiarray;
namespace zu = z5::util;

static Cfg config(pbt::Gen & g, std::size_t maxChunks = 60) {
    GenOpt o;
    o.maxChunks = maxChunks;
    o.maxDim = 5;
    o.dtypes = {"uint8", "int16", "int64", "float32", "float64"};
    Cfg c = genCfg(g, o);
    if(c.fill != c.fill) c.fill = 1;
    if(c.codec == "bzip2" || c.codec == "xz") c.codec = "zstd", c.opts = nlohmann::json::object();   // slow under the sanitizer
    g.desc << c.str();
    g.label("fmt" + std::to_string(c.fmt)); g.label("type:" + c.dtype); g.label("codec:" + c.codec);
    return c;
}

// ---------------------------------------------------------------- thread counts

template<class T> static void threads(pbt::Gen & g, const Cfg & c) {
    auto one = create(c, g.scratch + "/one"), many = create(c, g.scratch + "/many");
    Model<T> ref(c);
    const int n = g.range(1, 7);
    bool parallel = false;
    for(int i = 0; i < n; ++i) {
        const int th = g.pick(std::vector<int>{2, 2, 3, 4, 6, 8, 16, 0, -1});
        const int op = g.draw(7);
        const auto r = g.flip(1, 3) ? Region{Shape(c.nd(), 0), c.shape} : genRegion(g, c.shape);
        g.desc << "\nop " << op << " " << show(r.begin) << show(r.shape) << " threads " << th;
        if(op <= 2) {
            const auto l = genLayout(g, r.shape);
            Buf<T> b(l, r.shape);
            Maker<T> mk(g, ref.fill);
            eachPos(r.shape, [&](const Shape & p) { ref(add(r.begin, p)) = b(p) = mk(); });
            ma::writeSubarray<T>(*one, b.cview(), r.begin.begin(), 1);
            ma::writeSubarray<T>(*many, b.cview(), r.begin.begin(), th);
            parallel = true;
        } else if(op == 3) {
            Maker<T> mk(g, ref.fill);
            const T v = mk();
            ma::writeScalar<T>(*one, r.begin.begin(), r.shape.begin(), v, 1);
            ma::writeScalar<T>(*many, r.begin.begin(), r.shape.begin(), v, th);
            eachPos(r.shape, [&](const Shape & p) { ref(add(r.begin, p)) = v; });
            parallel = true;
        } else if(op == 4) {
            const T v = value<T>(7);
            const bool specific = g.flip();
            if(specific) { zu::removeTrivialChunks<T>(*one, 1, true, v); zu::removeTrivialChunks<T>(*many, th, true, v); }
            else { zu::removeTrivialChunks<T>(*one, 1); zu::removeTrivialChunks<T>(*many, th); }
            // (what the utility does is P18's subject; here it only has to do the same)
            ma::readSubarray<T>(*one, ma::makeView(ref.data.data(), c.shape), Shape(c.nd(), 0).begin(), 1);
        } else if(op == 5) {
            std::set<T> a, b; std::map<T, std::size_t> ca, cb;
            zu::unique<T>(*one, 1, a); zu::unique<T>(*many, th, b);
            zu::uniqueWithCounts<T>(*one, 1, ca); zu::uniqueWithCounts<T>(*many, th, cb);
            PBT_CHECK(a == b, "unique values differ: " << a.size() << " with one thread, " << b.size() << " with " << th);
            PBT_CHECK(ca == cb, "counts differ with " << th << " threads");
        } else if(op == 6) {
            const auto id = genChunk(g, c);
            one->removeChunk(id); many->removeChunk(id);
            const auto cr = chunkRegion(c, id);
            eachPos(cr.shape, [&](const Shape & p) { ref(add(cr.begin, p)) = ref.fill; });
        }
        // read: any region, both thread counts, against the reference
        const auto rr = i + 1 == n ? Region{Shape(c.nd(), 0), c.shape} : genRegion(g, c.shape);
        const auto l = genLayout(g, rr.shape);
        Buf<T> a(l, rr.shape), b(l, rr.shape);
        ma::readSubarray<T>(*many, a.view(), rr.begin.begin(), th);
        ma::readSubarray<T>(*one, b.view(), rr.begin.begin(), 1);
        eachPos(rr.shape, [&](const Shape & p) {
            PBT_CHECK(same(b(p), ref(add(rr.begin, p))), "op " << i << " with one thread: element " << show(add(rr.begin, p)) << " is wrong");
            PBT_CHECK(same(a(p), ref(add(rr.begin, p))), "op " << i << " with " << th << " threads: element " << show(add(rr.begin, p)) << " is wrong");
        });
        a.checkOutside("read");
        eachPos(c.grid(), [&](const Shape & id) { PBT_CHECK(one->chunkExists(id) == many->chunkExists(id), "op " << i << ": chunk " << show(id) << (many->chunkExists(id) ? " exists" : " is missing") << " with " << th << " threads"); });
    }
    g.nontrivial = parallel && prod(c.grid()) > 1;
    g.label("parallel", g.nontrivial);
}

PBT_TEST(threads) {
    const auto c = config(g);
    dispatch(c.dtype, [&](auto t) { threads<decltype(t)>(g, c); });
}

// ---------------------------------------------------------------- concurrent callers

struct Op { int kind; Shape id; Region r; uint64_t v; int threads; };

template<class T> static void concurrent(pbt::Gen & g, const Cfg & c) {
    auto ds = create(c, g.scratch + "/x");
    Model<T> ref(c);
    // some initial data
    {
        Maker<T> mk(g, ref.fill);
        const auto r = g.flip() ? Region{Shape(c.nd(), 0), c.shape} : genRegion(g, c.shape);
        std::vector<T> v;
        eachPos(r.shape, [&](const Shape & p) { v.push_back(ref(add(r.begin, p)) = mk()); });
        ma::writeSubarray<T>(*ds, ma::makeView(static_cast<const T *>(v.data()), r.shape), r.begin.begin(), 1);
        g.desc << "\ninit " << show(r.begin) << show(r.shape);
    }
    // owners of the chunks; the chunks of owner K are only read
    const int K = g.range(2, 6);
    const int assign = g.draw(3);
    std::vector<Shape> ids; std::map<Shape, int> owner; std::vector<std::vector<Shape>> own(K + 1);
    eachPos(c.grid(), [&](const Shape & id) {
        const int o = assign == 0 ? int(g.draw(K + 1)) : int(ids.size() % (assign == 1 ? K + 1 : K));
        ids.push_back(id); owner[id] = o; own[o].push_back(id);
    });
    // separate dataset objects are only promised for formats with one file per chunk
    const bool separate = c.fmt != 3 && g.flip(1, 3);
    g.desc << "\n" << K << " threads" << (separate ? ", each with its own dataset object" : "") << ", owners";
    for(auto & id : ids) g.desc << " " << owner[id];
    std::vector<std::vector<Op>> plan(K);
    std::size_t writers = 0, total = 0;
    for(int k = 0; k < K; ++k) {
        const int n = g.range(1, 10);
        bool writes = false;
        for(int i = 0; i < n; ++i) {
            Op o; o.kind = g.draw(9); o.v = g.draw(6) ? g.draw(1 << 16) : 0; o.threads = g.flip(1, 5) ? 2 : 1;
            const bool statics = own[k].empty() || (o.kind >= 7 && !own[K].empty());
            const auto & from = statics ? own[K] : own[k];
            if(from.empty()) continue;
            if(statics) o.kind = 7 + o.kind % 2;
            o.id = from[g.draw(from.size())];
            const auto cr = chunkRegion(c, o.id);
            const auto in = genRegion(g, cr.shape);
            o.r = Region{add(cr.begin, in.begin), in.shape};
            if(o.kind == 1 || o.kind == 5 || o.kind == 8) {
                // a box of chunks with the same owner, if there is one
                const auto other = from[g.draw(from.size())];
                Shape lo, hi, box; bool ok = true;
                for(std::size_t d = 0; d < c.nd(); ++d) { lo.push_back(std::min(o.id[d], other[d])); hi.push_back(std::max(o.id[d], other[d])); box.push_back(hi[d] - lo[d] + 1); }
                eachPos(box, [&](const Shape & p) { ok &= owner[add(lo, p)] == owner[o.id]; });
                if(!ok) lo = hi = o.id;
                const auto a = chunkRegion(c, lo), b = chunkRegion(c, hi);
                o.r.begin = a.begin;
                for(std::size_t d = 0; d < c.nd(); ++d) o.r.shape[d] = b.begin[d] + b.shape[d] - a.begin[d];
            }
            writes |= o.kind <= 5;
            g.desc << "\n  thread " << k << ": op " << o.kind << " chunk " << show(o.id) << " region " << show(o.r.begin) << show(o.r.shape) << " value " << o.v;
            plan[k].push_back(o);
            ++total;
        }
        writers += writes;
    }
    // (the threads only touch disjoint elements of the model, or read elements that nobody changes)
    std::atomic<int> ready{0};
    std::vector<std::string> errors(K);
    auto make = [&](uint64_t v, std::size_t k) { return v == 0 ? ref.fill : value<T>(v + k * (v % 3)); };
    auto run = [&](int k) {
        std::unique_ptr<z5::Dataset> mine;
        try {
            if(separate) mine = open(g.scratch + "/x");
            const z5::Dataset & d = separate ? *mine : *ds;
            ++ready;
            while(ready < K) std::this_thread::yield();
            for(std::size_t i = 0; i < plan[k].size(); ++i) {
                const Op & o = plan[k][i];
                const auto cr = chunkRegion(c, o.id);
                const Region & r = o.r;
                std::size_t n = 0;
                if(o.kind == 0 || o.kind == 6) {
                    const Shape full = c.zarr() ? c.chunks : cr.shape;
                    std::vector<T> m(prod(full), ref.fill);
                    eachPos(cr.shape, [&](const Shape & p) { ref(add(cr.begin, p)) = m[flat(p, full)] = make(o.v, n++); });
                    d.writeChunk(o.id, m.data());
                } else if(o.kind <= 3) {
                    std::vector<T> m;
                    eachPos(r.shape, [&](const Shape & p) { m.push_back(ref(add(r.begin, p)) = make(o.v, n++)); });
                    ma::writeSubarray<T>(d, ma::makeView(static_cast<const T *>(m.data()), r.shape), r.begin.begin(), o.threads);
                } else if(o.kind == 4) {
                    d.removeChunk(o.id);
                    eachPos(cr.shape, [&](const Shape & p) { ref(add(cr.begin, p)) = ref.fill; });
                } else if(o.kind == 5) {
                    const T v = make(o.v, 0);
                    ma::writeScalar<T>(d, r.begin.begin(), r.shape.begin(), v, o.threads);
                    eachPos(r.shape, [&](const Shape & p) { ref(add(r.begin, p)) = v; });
                } else {
                    std::vector<T> m(prod(r.shape), T(77));
                    ma::readSubarray<T>(d, ma::makeView(m.data(), r.shape), r.begin.begin(), o.threads);
                    eachPos(r.shape, [&](const Shape & p) { PBT_CHECK(same(m[n], ref(add(r.begin, p))), "thread " << k << " op " << i << ": element " << show(add(r.begin, p)) << " is wrong"); ++n; });
                }
                bool stored = false;
                eachPos(cr.shape, [&](const Shape & p) { stored |= !same(ref(add(cr.begin, p)), ref.fill); });
                PBT_CHECK(d.chunkExists(o.id) == stored, "thread " << k << " op " << i << ": chunk " << show(o.id) << (stored ? " is missing" : " exists"));
                if(stored && i % 2) {
                    const Shape full = c.zarr() ? c.chunks : cr.shape;
                    std::vector<T> m(prod(full));
                    d.readChunk(o.id, m.data());
                    eachPos(cr.shape, [&](const Shape & p) { PBT_CHECK(same(m[flat(p, full)], ref(add(cr.begin, p))), "thread " << k << " op " << i << ": chunk " << show(o.id) << " does not hold the values of its only writer"); });
                }
            }
        } catch(const std::exception & e) { errors[k] = e.what(); if(errors[k].empty()) errors[k] = "?"; ready = K; }
    };
    std::vector<std::thread> pool;
    for(int k = 0; k < K; ++k) pool.emplace_back(run, k);
    for(auto & t : pool) t.join();
    for(int k = 0; k < K; ++k) PBT_CHECK(errors[k].empty(), "thread " << k << ": " << errors[k]);
    if(g.flip()) { ds.reset(); ds = open(g.scratch + "/x"); }
    std::vector<T> m(prod(c.shape));
    ma::readSubarray<T>(*ds, ma::makeView(m.data(), c.shape), Shape(c.nd(), 0).begin(), 1);
    std::size_t n = 0;
    eachPos(c.shape, [&](const Shape & p) { PBT_CHECK(same(m[n], ref.data[n]), "after joining: element " << show(p) << " is not what its only writer wrote last"); ++n; });
    eachPos(c.grid(), [&](const Shape & id) {
        const auto cr = chunkRegion(c, id);
        bool stored = false;
        eachPos(cr.shape, [&](const Shape & p) { stored |= !same(ref(add(cr.begin, p)), ref.fill); });
        PBT_CHECK(ds->chunkExists(id) == stored, "after joining: chunk " << show(id) << (stored ? " is missing" : " exists"));
    });
    g.nontrivial = writers > 1;
    g.label("writers:" + std::to_string(writers)); g.label("separate objects", separate);
}

PBT_TEST(concurrent) {
    auto c = config(g, 40);
    dispatch(c.dtype, [&](auto t) { concurrent<decltype(t)>(g, c); });
}

// many inner chunks, one shard: the case with shared state
PBT_TEST(shard) {
    auto c = config(g, 40);
    if(c.fmt != 3) { c.fmt = 3; if(c.codec == "lz4" || c.codec == "zlib") c.codec = "gzip"; c.enc = "default"; c.sep = "/"; }
    c.shards.clear();
    for(std::size_t d = 0; d < c.nd(); ++d) c.shards.push_back(c.chunks[d] * (1 + g.draw(2) * (c.grid()[d] - 1)));
    g.desc << "\nshards " << show(c.shards);
    dispatch(c.dtype, [&](auto t) { concurrent<decltype(t)>(g, c); });
}

PBT_MAIN

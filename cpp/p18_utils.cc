// parts: zds
// P18: dataset-wide utilities against a model array, for every thread count
#define ZDS_NO_COMPLEX
#include <atomic>
#include <map>
#include <mutex>
#include <set>
#include "zds.hpp"
#include "z5/util/functions.hxx"
#include "throwing_new.hpp"

using namespace zds;
namespace ma = z5::multiarray;
namespace zu = z5::util;

static int genThreads(pbt::Gen & g) { return g.pick(std::vector<int>{1, 1, 2, 2, 3, 4, 8, 17, 0, -1, -2}); }

static bool overlap(const Shape & ab, const Shape & as, const Region & r) {
    for(std::size_t d = 0; d < ab.size(); ++d) if(ab[d] >= r.begin[d] + r.shape[d] || r.begin[d] >= ab[d] + as[d]) return false;
    return true;
}

template<class T> struct State {
    Cfg c; Model<T> ref;
    std::map<Shape, std::vector<T>> varlen;       // n5 chunks that were written with a free length
    explicit State(const Cfg & c) : c(c), ref(c) {}
    std::vector<T> elements(const Shape & id) {
        auto it = varlen.find(id);
        if(it != varlen.end()) return it->second;
        std::vector<T> v; const auto r = chunkRegion(c, id);
        eachPos(r.shape, [&](const Shape & p) { v.push_back(ref(add(r.begin, p))); });
        return v;
    }
    bool exists(const Shape & id) {
        if(varlen.count(id)) return true;
        for(const T & x : elements(id)) if(!same(x, ref.fill)) return true;
        return false;
    }
    void erase(const Shape & id) {
        varlen.erase(id);
        const auto r = chunkRegion(c, id);
        eachPos(r.shape, [&](const Shape & p) { ref(add(r.begin, p)) = ref.fill; });
    }
};

template<class T> static void compare(State<T> & s, const z5::Dataset & ds, const char * what) {
    eachPos(s.c.grid(), [&](const Shape & id) {
        PBT_CHECK(ds.chunkExists(id) == s.exists(id), what << ": chunk " << show(id) << (s.exists(id) ? " is gone" : " exists"));
        const auto want = s.elements(id);
        auto it = s.varlen.find(id);
        if(it != s.varlen.end()) {
            std::size_t n = 0;
            PBT_CHECK(ds.checkVarlenChunk(id, n) && n == want.size(), what << ": varlen chunk " << show(id) << " has " << n << " elements instead of " << want.size());
            std::unique_ptr<T[]> m(new T[std::max(n, prod(s.c.chunks))]);
            ds.readChunk(id, m.get());
            for(std::size_t k = 0; k < n; ++k) PBT_CHECK(same(m[k], want[k]), what << ": varlen chunk " << show(id));
            return;
        }
        const auto r = chunkRegion(s.c, id);
        std::unique_ptr<T[]> m(new T[prod(r.shape)]);
        ma::readSubarray<T>(ds, ma::makeView(m.get(), r.shape), r.begin.begin(), 1);
        for(std::size_t k = 0; k < want.size(); ++k) PBT_CHECK(same(m[k], want[k]), what << ": element " << k << " of chunk " << show(id) << " changed");
    });
}

template<class T> static std::unique_ptr<z5::Dataset> build(pbt::Gen & g, State<T> & s) {
    const Cfg & c = s.c;
    auto ds = create(c, g.scratch + "/x");
    const int n = g.range(0, 6);
    for(int i = 0; i < n; ++i) {
        const int op = g.draw(6);
        if(op <= 1) {
            const auto r = genRegion(g, c.shape);
            std::vector<T> v; Maker<T> mk(g, s.ref.fill);
            eachPos(r.shape, [&](const Shape & p) { v.push_back(mk()); });
            // varlen chunks can not be merged with
            bool skip = false;
            for(auto & [id, _] : s.varlen) { const auto cr = chunkRegion(c, id); skip |= overlap(cr.begin, cr.shape, r); }
            if(skip) continue;
            std::size_t k = 0;
            eachPos(r.shape, [&](const Shape & p) { s.ref(add(r.begin, p)) = v[k++]; });
            g.desc << "\nwrite " << show(r.begin) << show(r.shape) << " mode " << mk.mode;
            ma::writeSubarray<T>(*ds, ma::makeView(static_cast<const T *>(v.data()), r.shape), r.begin.begin(), 1);
        } else if(op <= 4) {
            // constant or nearly constant chunks
            const auto id = genChunk(g, c);
            const auto r = chunkRegion(c, id);
            const Shape full = c.zarr() ? c.chunks : r.shape;
            s.erase(id);
            std::vector<T> m(prod(full), s.ref.fill);
            const T v = value<T>(g.draw(4));
            const std::size_t odd = g.flip(1, 3) ? g.draw(prod(r.shape)) : prod(r.shape);
            std::size_t k = 0;
            eachPos(r.shape, [&](const Shape & p) { s.ref(add(r.begin, p)) = m[flat(p, full)] = (k++ == odd ? value<T>(9) : v); });
            g.desc << "\nchunk " << show(id) << " = " << double(v) << (odd < k ? " but one" : "");
            ds->writeChunk(id, m.data());
        } else if(c.fmt == 0 && g.flip(1, 2)) {
            const auto id = genChunk(g, c);
            std::vector<T> v(1 + g.draw(g.flip() ? 5 : 3 * prod(c.chunks)));
            Maker<T> mk(g, T(1));
            for(auto & x : v) x = mk();
            // (a chunk of nothing but the fill value would not be stored)
            v[g.draw(v.size())] = value<T>(8);
            s.erase(id);
            s.varlen[id] = v;
            g.desc << "\nvarlen " << show(id) << " " << v.size();
            ds->writeChunk(id, v.data(), true, v.size());
            g.label("varlen");
        } else {
            const auto id = genChunk(g, c);
            g.desc << "\nremove " << show(id);
            ds->removeChunk(id);
            s.erase(id);
        }
    }
    if(g.flip(1, 3)) { ds.reset(); ds = open(g.scratch + "/x"); g.desc << "\nreopen"; }
    return ds;
}

static Cfg config(pbt::Gen & g) {
    GenOpt o;
    o.dtypes = {"uint8", "int16", "uint32", "int64", "float32", "float64"};
    Cfg c = genCfg(g, o);
    if(c.fill != c.fill) c.fill = 1;      // unique values of data with nan: no order
    g.desc << c.str();
    g.label("fmt" + std::to_string(c.fmt)); g.label("type:" + c.dtype);
    return c;
}

template<class T> static void unique(pbt::Gen & g, const Cfg & c) {
    State<T> s(c);
    auto ds = build(g, s);
    std::map<T, std::size_t> want;
    std::size_t stored = 0;
    eachPos(c.grid(), [&](const Shape & id) { if(!s.exists(id)) return; ++stored; for(const T & x : s.elements(id)) ++want[x]; });
    for(int k = 0; k < 2; ++k) {
        const int th = genThreads(g);
        g.desc << "\nunique with " << th << " threads";
        std::set<T> u; std::map<T, std::size_t> uc;
        zu::unique<T>(*ds, th, u);
        zu::uniqueWithCounts<T>(*ds, th, uc);
        PBT_CHECK(u.size() == want.size(), u.size() << " unique values instead of " << want.size() << " with " << th << " threads");
        auto it = want.begin();
        for(const T & x : u) { PBT_CHECK(x == it->first, "unique value " << double(x) << " instead of " << double(it->first)); ++it; }
        for(auto & [x, n] : want) { const std::size_t got = uc.count(x) ? uc[x] : 0; PBT_CHECK(got == n, "value " << double(x) << " counted " << got << " times instead of " << n << " with " << th << " threads"); }
        PBT_CHECK(uc.size() == want.size(), "uniqueWithCounts gives " << uc.size() << " values instead of " << want.size());
        g.label("threads:" + std::to_string(th));
    }
    compare(s, *ds, "after unique");
    g.nontrivial = want.size() > 1;
    g.label("partly stored", stored > 0 && stored < prod(c.grid()));
}

PBT_TEST(unique) {
    const auto c = config(g);
    dispatch(c.dtype, [&](auto t) { unique<decltype(t)>(g, c); });
}

template<class T> static void trivial(pbt::Gen & g, const Cfg & c) {
    State<T> s(c);
    auto ds = build(g, s);
    bool some = false, keptConst = false;
    for(int k = 0; k < 2; ++k) {
        const int th = genThreads(g);
        const bool specific = g.flip();
        const T v = value<T>(g.draw(5));
        g.desc << "\nremoveTrivialChunks " << (specific ? "of " + std::to_string(double(v)) : "any") << " with " << th << " threads";
        g.label(specific ? "specific" : "any"); g.label("threads:" + std::to_string(th));
        if(g.flip(1, 10)) {
            auto ro = open(g.scratch + "/x", "r");
            bool threw = false;
            try { zu::removeTrivialChunks<T>(*ro, th, specific, v); } catch(const std::exception &) { threw = true; }
            PBT_CHECK(threw, "removeTrivialChunks on a read-only dataset does not throw");
            compare(s, *ro, "after the refused removeTrivialChunks");
        }
        if(specific) zu::removeTrivialChunks<T>(*ds, th, true, v); else zu::removeTrivialChunks<T>(*ds, th);
        eachPos(c.grid(), [&](const Shape & id) {
            if(!s.exists(id)) return;
            const auto e = s.elements(id);
            for(const T & x : e) if(!same(x, e[0])) return;
            if(specific && !(e[0] == v)) { keptConst = true; return; }
            s.erase(id); some = true;
        });
        compare(s, *ds, "after removeTrivialChunks");
    }
    if(g.flip(1, 4)) { ds.reset(); ds = open(g.scratch + "/x"); compare(s, *ds, "after removeTrivialChunks and re-opening"); }
    g.label("removed some", some); g.label("kept another constant", keptConst);
    g.nontrivial = some;
}

PBT_TEST(trivial) {
    const auto c = config(g);
    dispatch(c.dtype, [&](auto t) { trivial<decltype(t)>(g, c); });
}

// iteration: exactly once, with the right geometry and thread ids
PBT_TEST(iterate) {
    Cfg c = config(g);
    auto ds = create(c, g.scratch + "/x");
    const int th = genThreads(g);
    const int nth = z5::util::ParallelOptions(th).getActualNumThreads();
    const int kind = g.draw(4);
    Shape block;
    for(auto s : c.shape) block.push_back(1 + g.draw(s + 2));
    const bool blocks = kind >= 2, roi = kind % 2;
    const Shape unit = blocks ? block : c.chunks;
    Region r = roi ? genRegion(g, c.shape) : Region{Shape(c.nd(), 0), c.shape};
    Shape grid;
    for(std::size_t d = 0; d < c.nd(); ++d) grid.push_back((c.shape[d] + unit[d] - 1) / unit[d]);
    if(prod(grid) > 4000) return;
    std::map<std::pair<Shape, Shape>, int> want;
    eachPos(grid, [&](const Shape & id) {
        Shape b, e;
        for(std::size_t d = 0; d < c.nd(); ++d) { b.push_back(id[d] * unit[d]); e.push_back(std::min<std::size_t>(unit[d], c.shape[d] - b[d])); }
        if(overlap(b, e, r)) want[blocks ? std::make_pair(b, e) : std::make_pair(id, Shape())] = 1;
    });
    std::mutex m; std::map<std::pair<Shape, Shape>, int> got; bool badTid = false, badDs = false;
    auto note = [&](int tid, const z5::Dataset & d, std::pair<Shape, Shape> k) {
        std::lock_guard<std::mutex> lock(m);
        badTid |= tid < 0 || tid >= nth; badDs |= &d != ds.get();
        ++got[k];
    };
    auto onChunk = [&](const int tid, const z5::Dataset & d, const Shape & id) { note(tid, d, {id, Shape()}); };
    auto onBlock = [&](const int tid, const z5::Dataset & d, const Shape & b, const Shape & e) { note(tid, d, {b, e}); };
    const Shape end = add(r.begin, r.shape);
    g.desc << "\n" << (blocks ? "blocks " + show(block) : std::string("chunks")) << (roi ? " in " + show(r.begin) + show(end) : "") << " with " << th << " threads";
    switch(kind) {
        case 0: zu::parallel_for_each_chunk(*ds, th, onChunk); break;
        case 1: zu::parallel_for_each_chunk_in_roi(*ds, r.begin, end, th, onChunk); break;
        case 2: zu::parallel_for_each_block(*ds, block, th, onBlock); break;
        default: zu::parallel_for_each_block_in_roi(*ds, block, r.begin, end, th, onBlock);
    }
    PBT_CHECK(!badTid, "a thread id outside of the pool");
    PBT_CHECK(!badDs, "another dataset");
    for(auto & [k, n] : got) PBT_CHECK(want.count(k), (blocks ? "block " : "chunk ") << show(k.first) << show(k.second) << " was visited, but is not in the region");
    for(auto & [k, n] : want) PBT_CHECK(got[k] == 1, (blocks ? "block " : "chunk ") << show(k.first) << show(k.second) << " was visited " << got[k] << " times");
    g.label(blocks ? "blocks" : "chunks"); g.label("roi", roi); g.label("threads:" + std::to_string(th));
    g.nontrivial = want.size() > 1;
}

// removing a dataset leaves its siblings alone
template<class T> static void removal(pbt::Gen & g, const Cfg & c) {
    State<T> s(c);
    auto ds = build(g, s);
    const std::string root = g.scratch + "/x";
    std::filesystem::copy(root + "/data", root + "/data2", std::filesystem::copy_options::recursive);
    std::filesystem::copy(root + "/data", root + "/dat", std::filesystem::copy_options::recursive);
    const int th = genThreads(g);
    g.desc << "\nremoveDataset with " << th << " threads";
    zu::removeDataset(*ds, th);
    PBT_CHECK(!std::filesystem::exists(root + "/data"), "the removed dataset is still there");
    for(const char * n : {"dat", "data2"}) {
        auto other = open(root, "a", n);
        compare(s, *other, n);
    }
    g.nontrivial = true;
}

PBT_TEST(removal) {
    const auto c = config(g);
    dispatch(c.dtype, [&](auto t) { removal<decltype(t)>(g, c); });
}

// (P16) a chunk that can not be read is reported, whatever the thread count, and nothing else suffers
template<class T> static void faults(pbt::Gen & g, const Cfg & c) {
    namespace fs = std::filesystem;
    State<T> s(c);
    auto ds = build(g, s);
    std::vector<Shape> stored;
    eachPos(c.grid(), [&](const Shape & id) { if(s.exists(id)) stored.push_back(id); });
    if(stored.empty()) return;
    const Shape id = stored[g.draw(stored.size())];
    fs::path p;
    ds->chunkPath(id, p);
    const fs::path aside = p.string() + "~aside";
    fs::rename(p, aside);
    const bool cut = g.flip(1, 3);
    if(cut) { fs::copy_file(aside, p); fs::resize_file(p, g.draw(fs::file_size(p))); }
    else fs::create_directories(p / "in the way");
    const int th = genThreads(g);
    const int op = g.draw(5);
    // (a truncated stream may still hold what an operation needs: varlen sizes, the other chunks of a shard)
    const bool must = !cut;
    bool threw = false;
    g.desc << "\nchunk " << show(id) << (cut ? " truncated" : " unreadable") << ", operation " << op << " with " << th << " threads";
    std::set<T> u; std::map<T, std::size_t> uc;
    const T mark = value<T>(3);
    bool keep = true;
    try {
        switch(op) {
            case 0: zu::unique<T>(*ds, th, u); break;
            case 1: zu::uniqueWithCounts<T>(*ds, th, uc); break;
            case 2: keep = false; zu::removeTrivialChunks<T>(*ds, th); break;
            case 3: { std::unique_ptr<T[]> m(new T[prod(c.shape)]); ma::readSubarray<T>(*ds, ma::makeView(m.get(), c.shape), Shape(c.nd(), 0).begin(), std::max(th, 1)); break; }
            default: { std::unique_ptr<T[]> m(new T[std::max(prod(c.chunks), s.elements(id).size())]); ds->readChunk(id, m.get()); }
        }
    } catch(const std::exception &) { threw = true; }
    PBT_CHECK(threw || !must, "operation " << op << " with " << th << " threads returned although chunk " << show(id) << " can not be read");
    fs::remove_all(p);
    fs::create_directories(p.parent_path());
    fs::rename(aside, p);
    if(!keep) {
        // each trivial chunk may be gone
        eachPos(c.grid(), [&](const Shape & k) {
            if(!s.exists(k) || ds->chunkExists(k)) return;
            const auto e = s.elements(k);
            for(const T & x : e) PBT_CHECK(same(x, e[0]), "removeTrivialChunks removed chunk " << show(k));
            s.erase(k);
        });
    }
    if(keep || c.fmt != 3) compare(s, *ds, "afterwards");
    g.label("op" + std::to_string(op)); g.label(cut ? "truncated" : "unreadable"); g.label("threads:" + std::to_string(th)); g.label("fmt" + std::to_string(c.fmt));
    g.nontrivial = threw;
}

PBT_TEST(faults) {
    const auto c = config(g);
    dispatch(c.dtype, [&](auto t) { faults<decltype(t)>(g, c); });
}

// (P16) an exception in a callback reaches the caller
PBT_TEST(callback) {
    Cfg c = config(g);
    auto ds = create(c, g.scratch + "/x");
    const int th = genThreads(g);
    const int kind = g.draw(4);
    const Region r = kind % 2 ? genRegion(g, c.shape) : Region{Shape(c.nd(), 0), c.shape};
    const Shape end = add(r.begin, r.shape);
    const int at = g.draw(6);
    std::atomic<int> n(0);
    auto bump = [&]() { if(n++ == at) throw std::runtime_error("mine"); };
    auto onChunk = [&](const int, const z5::Dataset &, const Shape &) { bump(); };
    auto onBlock = [&](const int, const z5::Dataset &, const Shape &, const Shape &) { bump(); };
    std::string what;
    try {
        switch(kind) {
            case 0: zu::parallel_for_each_chunk(*ds, th, onChunk); break;
            case 1: zu::parallel_for_each_chunk_in_roi(*ds, r.begin, end, th, onChunk); break;
            case 2: zu::parallel_for_each_block(*ds, c.chunks, th, onBlock); break;
            default: zu::parallel_for_each_block_in_roi(*ds, c.chunks, r.begin, end, th, onBlock);
        }
    } catch(const std::runtime_error & e) { what = e.what(); }
    g.desc << "\ncallback " << at << " of kind " << kind << " throws with " << th << " threads";
    PBT_CHECK((n > at) == (what == "mine"), "the callback was called " << n << " times and threw on call " << at << ", but the caller got '" << what << "'");
    g.nontrivial = n > at;
    g.label("threads:" + std::to_string(th));
}

PBT_MAIN

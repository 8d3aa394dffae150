// parts: zds
// P25: the S3 backend against the file system backend: the same history of operations on both gives the
// same answers and the same stored objects.  The bucket is an in-memory stand-in for the AWS SDK (fakeaws/).
#include "fakeaws/fake.hxx"
#include "zds.hpp"
#include "z5/factory.hxx"
#include "z5/attributes.hxx"

using namespace zds;
namespace fs = std::filesystem;
namespace ma = z5::multiarray;
using json = nlohmann::json;
using Path = std::string;

static const char * BUCKET = "bucket";

static z5::FileMode modeOf(int m) {
    return z5::FileMode(m == 0 ? z5::FileMode::a : m == 1 ? z5::FileMode::r : m == 2 ? z5::FileMode::r_p : m == 3 ? z5::FileMode::w : m == 4 ? z5::FileMode::w_m : z5::FileMode::a);
}

struct FsSide {
    using File = z5::filesystem::handle::File; using Group = z5::filesystem::handle::Group; using DsHandle = z5::filesystem::handle::Dataset;
    Path root;
    File file(int m) const { return File(root, modeOf(m)); }
};
struct S3Side {
    using File = z5::s3::handle::File; using Group = z5::s3::handle::Group; using DsHandle = z5::s3::handle::Dataset;
    Path root;
    File file(int m) const { return File(BUCKET, root, modeOf(m), "http://localhost:1", "us-east-1", false, "k", "s"); }
};

// one operation of a history; everything random is drawn beforehand, so that both sides do the same
struct Op {
    std::string kind;
    int mode = 0, threads = 1;
    Path parent, name;     // the node is name in the group parent ("": the file)
    Cfg cfg; json attrs; std::string key;
    Region region; Shape chunk; uint64_t seed = 0; bool viaFile = true;
    std::string str() const {
        std::ostringstream o;
        o << kind << " [mode " << modeOf(mode).printMode() << "] " << parent << "|" << name;
        if(kind == "createDataset") o << " " << cfg.str();
        if(!region.begin.empty()) o << " " << show(region.begin) << "+" << show(region.shape) << " t" << threads;
        if(!chunk.empty()) o << " chunk " << show(chunk);
        if(!attrs.is_null()) o << " " << attrs.dump();
        if(!key.empty()) o << " key " << key;
        return o.str();
    }
    bool mutates() const { return kind.substr(0, 3) != "get"; }
    bool repeatable() const { return kind.substr(0, 6) != "create"; }
};

template<class T> static std::vector<T> values(uint64_t seed, std::size_t n, T fill) {
    std::vector<T> v(n);
    for(auto & x : v) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; x = seed % 7 == 0 ? fill : value<T>(seed >> 40); }
    if(seed % 4 == 0) std::fill(v.begin(), v.end(), fill);
    return v;
}

template<class V> static std::string bytes(const std::vector<V> & v) {
    uint64_t h = 1469598103934665603ull;
    const auto * p = reinterpret_cast<const unsigned char *>(v.data());
    for(std::size_t i = 0; i < v.size() * sizeof(V); ++i) h = (h ^ p[i]) * 1099511628211ull;
    return std::to_string(v.size()) + ":" + std::to_string(h);
}

// run an operation on one side: the answer as text
template<class GROUP, class SIDE> static std::string inGroup(const SIDE &, const GROUP & g, const Op & op) {
    using Group = typename SIDE::Group; using DsHandle = typename SIDE::DsHandle;
    std::ostringstream o;
    const std::string & k = op.kind;
    if(k == "createGroup") {
        z5::createGroup(g, op.name, op.cfg.fmt > 1 ? 3 : 2);
        // a group without any object does not exist in a bucket
        if(op.cfg.fmt == 0) z5::writeAttributes(Group(g, op.name), json{{"made", 1}});
    } else if(k == "createDataset") {
        const Cfg & c = op.cfg;
        const int zf = c.fmt > 1 ? 3 : 2;
        auto ds = z5::createDataset(g, op.name, c.dtype, c.shape, c.chunks, c.codec, c.opts, c.fill, c.sep, zf, c.enc, c.shards);
        o << ds->dimension() << ds->isZarr();
    } else if(k == "removeGroup") {
        Group(g, op.name).remove();
    } else if(k == "removeDataset") {
        DsHandle(g, op.name).remove();
    } else if(k == "groupAttrs") {
        z5::writeAttributes(Group(g, op.name), op.attrs);
    } else if(k == "groupAttrRemove") {
        z5::removeAttribute(Group(g, op.name), op.key);
    } else if(k == "getGroupAttrs") {
        json j; z5::readAttributes(Group(g, op.name), j); o << j.dump();
    } else if(k == "dsAttrs") {
        z5::writeAttributes(DsHandle(g, op.name), op.attrs);
    } else if(k == "dsAttrRemove") {
        z5::removeAttribute(DsHandle(g, op.name), op.key);
    } else if(k == "getDsAttrs") {
        json j; z5::readAttributes(DsHandle(g, op.name), j); o << j.dump();
    } else if(k == "getExists") {
        o << g.in(op.name) << Group(g, op.name).exists() << DsHandle(g, op.name).exists();
    } else if(k == "getKind") {
        o << z5::isSubGroup(g, op.name) << DsHandle(g, op.name).isZarr();
    } else if(k == "getKeys") {
        std::vector<std::string> names; g.keys(names); std::sort(names.begin(), names.end());
        for(auto & n : names) o << n << ",";
    } else {
        auto ds = z5::openDataset(g, op.name);
        if(k == "getMeta") {
            std::string comp; ds->getCompressor(comp);
            z5::types::CompressionOptions opts; ds->getCompressionOptions(opts); json jo; z5::types::compressionTypeToJson(opts, jo);
            o << show(ds->shape()) << show(ds->defaultChunkShape()) << show(ds->shardShape()) << ds->isSharded() << ds->isZarr() << int(ds->getDtype()) << comp << jo.dump() << ds->mode().printMode() << ds->numberOfChunks();
            return o.str();
        }
        dispatch(op.cfg.dtype, [&](auto tag) {
            using T = decltype(tag);
            const T fill = T(op.cfg.zarr() && op.cfg.fill == op.cfg.fill ? op.cfg.fill : 0);
            if(k == "write") {
                const auto v = values<T>(op.seed, prod(op.region.shape), fill);
                ma::ConstArrayView<T> view{v.data(), op.region.shape, ma::cOrderStrides(op.region.shape)};
                ma::writeSubarray<T>(*ds, view, op.region.begin.begin(), op.threads);
            } else if(k == "getRegion") {
                std::vector<T> v(prod(op.region.shape), T(77));
                ma::ArrayView<T> view{v.data(), op.region.shape, ma::cOrderStrides(op.region.shape)};
                ma::readSubarray<T>(*ds, view, op.region.begin.begin(), op.threads);
                o << bytes(v);
            } else if(k == "writeScalar") {
                T v = op.seed % 3 ? value<T>(op.seed) : fill;
                ma::writeScalar<T>(*ds, op.region.begin.begin(), op.region.shape.begin(), v, op.threads);
            } else if(k == "writeChunk") {
                Shape s; ds->getChunkShape(op.chunk, s);
                const auto v = values<T>(op.seed, prod(op.cfg.zarr() ? op.cfg.chunks : s), fill);
                ds->writeChunk(op.chunk, v.data());
            } else if(k == "removeChunk") {
                ds->removeChunk(op.chunk);
            } else if(k == "getChunk") {
                Shape s; ds->getChunkShape(op.chunk, s);
                std::vector<T> v(prod(op.cfg.zarr() ? op.cfg.chunks : s), T(77));
                const bool there = ds->chunkExists(op.chunk);
                o << there;
                if(there) { ds->readChunk(op.chunk, v.data()); o << bytes(v); }
                std::vector<char> raw; ds->readRawChunk(op.chunk, raw); o << bytes(raw);
                T fv; ds->getFillValue(&fv); o << bytes(std::vector<T>{fv});
            } else throw std::runtime_error("harness: no operation " + k);
        });
    }
    return o.str();
}

template<class SIDE> static std::string apply(const SIDE & side, const Op & op) {
    const auto f = side.file(op.mode);
    const std::string & k = op.kind;
    std::ostringstream o;
    if(k == "createFile") { z5::createFile(f, op.cfg.zarr(), op.cfg.fmt > 1 ? 3 : 2); return ""; }
    if(k == "removeFile") { f.remove(); return ""; }
    if(k == "getFile") { o << f.exists(); if(f.exists()) o << f.isZarr(); return o.str(); }
    if(k == "fileAttrs") { z5::writeAttributes(f, op.attrs); return ""; }
    if(k == "fileAttrRemove") { z5::removeAttribute(f, op.key); return ""; }
    if(k == "getFileAttrs") { json j; z5::readAttributes(f, j); return j.dump(); }
    if(op.parent.empty()) return inGroup(side, f, op);
    return inGroup(side, typename SIDE::Group(f, op.parent), op);
}

struct Result { bool threw = false; std::string what; };
template<class SIDE> static Result run(const SIDE & side, const Op & op) {
    try { return {false, apply(side, op)}; }
    catch(const std::exception & e) { return {true, e.what()}; }
}

using Objects = std::map<std::string, std::string>;
static bool isDoc(const std::string & p) {
    const auto n = p.substr(p.rfind('/') == std::string::npos ? 0 : p.rfind('/') + 1);
    return n == ".zarray" || n == ".zgroup" || n == ".zattrs" || n == "zarr.json" || n == "attributes.json";
}
static std::string norm(const std::string & p, const std::string & data) {
    if(!isDoc(p)) return data;
    try { return json::parse(data).dump(); } catch(const std::exception &) { return "not json: " + data; }
}
static Objects filesOf(const Path & root) {
    Objects r;
    if(!fs::exists(root)) return r;
    for(auto & e : fs::recursive_directory_iterator(root)) if(e.is_regular_file()) {
        std::ifstream in(e.path(), std::ios::binary);
        const std::string d{std::istreambuf_iterator<char>(in), {}};
        const std::string p = fs::relative(e.path(), root).string();
        r[p] = norm(p, d);
    }
    return r;
}
static Objects objectsOf(const Path & root) {
    Objects r;
    const std::string prefix = root.empty() ? "" : root + "/";
    for(auto & kv : fakeaws::store().buckets[BUCKET]) if(kv.first.compare(0, prefix.size(), prefix) == 0) r[kv.first.substr(prefix.size())] = norm(kv.first, kv.second);
    return r;
}
static std::string diff(const Objects & a, const Objects & b) {
    for(auto & kv : a) { auto it = b.find(kv.first); if(it == b.end()) return "file " + kv.first + " is no object"; if(it->second != kv.second) return "object " + kv.first + " differs from the file" + (isDoc(kv.first) ? ": " + it->second + " vs " + kv.second : ""); }
    for(auto & kv : b) if(!a.count(kv.first)) return "object " + kv.first + " is no file";
    return "";
}

// what the history has made so far, to choose sensible targets
struct World {
    int fmt = 0; bool file = false;
    std::map<Path, int> groups;            // full path -> 1
    std::map<Path, Cfg> datasets;
};
static Path join(const Path & a, const Path & b) { return a.empty() ? b : a + "/" + b; }
static void split(const Path & p, Path & parent, Path & name) { const auto k = p.rfind('/'); parent = k == Path::npos ? "" : p.substr(0, k); name = k == Path::npos ? p : p.substr(k + 1); }

static json genAttrs(pbt::Gen & g) {
    static const std::vector<std::string> keys{"a", "b", "\xc3\xa4", "offset", "x y", "a/b"};
    json j = json::object();
    for(int n = g.range(1, 3); n > 0; --n) {
        const auto & k = g.pick(keys);
        switch(g.draw(5)) { case 0: j[k] = g.range(-5, 5); break; case 1: j[k] = "v\xc3\xb6" + std::to_string(g.draw(9)); break; case 2: j[k] = json::array({1, 2.5, nullptr}); break; case 3: j[k] = json{{"n", json{{"m", true}}}}; break; default: j[k] = nullptr; }
    }
    return j;
}

static Op genOp(pbt::Gen & g, World & w) {
    static const std::vector<std::string> names{"a", "ab", "data", "data2", "a.b", "0", "c", "1"};
    Op op;
    op.mode = g.flip(1, 6) ? int(g.range(1, 5)) : 0;
    op.cfg.fmt = w.fmt;
    op.seed = g.draw(1u << 30);
    if(!w.file || g.flip(1, 40)) { op.kind = "createFile"; return op; }
    std::vector<Path> groups{""}, all, sets;
    for(auto & x : w.groups) groups.push_back(x.first), all.push_back(x.first);
    for(auto & x : w.datasets) sets.push_back(x.first), all.push_back(x.first);
    auto target = [&](const std::vector<Path> & v) { split(g.pick(v), op.parent, op.name); };
    auto withDs = [&]() { const Path p = g.pick(sets); split(p, op.parent, op.name); op.cfg = w.datasets[p]; };
    if(g.flip(3, 5) && !sets.empty()) {
        withDs();
        static const std::vector<std::string> ks{"write", "write", "write", "getRegion", "getRegion", "writeChunk", "writeChunk", "removeChunk", "getChunk", "getChunk", "writeScalar", "getMeta", "dsAttrs", "dsAttrRemove", "getDsAttrs"};
        op.kind = g.pick(ks);
        op.threads = g.flip(1, 3) ? int(g.range(2, 4)) : 1;
        if(op.kind == "write" || op.kind == "getRegion" || op.kind == "writeScalar") op.region = genRegion(g, op.cfg.shape);
        else if(op.kind.find("hunk") != std::string::npos) op.chunk = genChunk(g, op.cfg);
        else if(op.kind == "dsAttrs") op.attrs = genAttrs(g);
        else if(op.kind == "dsAttrRemove") op.key = g.pick(std::vector<std::string>{"a", "b", "offset", "nope"});
        return op;
    }
    switch(g.draw(13)) {
        case 0: case 1: op.kind = "createGroup"; op.parent = g.pick(groups); op.name = g.pick(names); break;
        case 2: case 3: case 4: {
            op.kind = "createDataset"; op.parent = g.pick(groups); op.name = g.pick(names);
            GenOpt o; o.maxChunks = 30; o.maxDim = 3; o.maxExtent = {0, 20, 9, 5};
            o.dtypes = {"uint8", "int16", "uint32", "int64", "float32", "float64"};
            o.fmts = w.fmt >= 2 ? std::vector<int>{2, 3} : std::vector<int>{w.fmt};
            op.cfg = genCfg(g, o);
            break;
        }
        case 5: op.kind = "getKeys"; op.parent = g.pick(groups); op.name = "x"; break;
        case 6: op.kind = "getExists"; op.parent = g.pick(groups); op.name = g.pick(names); break;
        case 7: if(!all.empty()) { op.kind = "getKind"; target(all); break; } [[fallthrough]];
        case 8: op.kind = g.pick(std::vector<std::string>{"fileAttrs", "fileAttrRemove", "getFileAttrs", "getFileAttrs", "getFile"}); if(op.kind == "fileAttrs") op.attrs = genAttrs(g); if(op.kind == "fileAttrRemove") op.key = g.pick(std::vector<std::string>{"a", "b"}); break;
        case 9: case 10: if(!w.groups.empty()) { groups.erase(groups.begin()); target(groups); op.kind = g.pick(std::vector<std::string>{"groupAttrs", "groupAttrRemove", "getGroupAttrs", "getGroupAttrs"}); if(op.kind == "groupAttrs") op.attrs = genAttrs(g); if(op.kind == "groupAttrRemove") op.key = g.pick(std::vector<std::string>{"a", "b"}); break; } [[fallthrough]];
        case 11: if(!all.empty() && g.flip()) { const Path p = g.pick(all); split(p, op.parent, op.name); op.kind = w.datasets.count(p) ? "removeDataset" : "removeGroup"; break; } [[fallthrough]];
        default: if(g.flip(1, 4)) op.kind = "removeFile"; else { op.kind = "getKeys"; op.parent = g.pick(groups); op.name = "x"; }
    }
    return op;
}

static void account(World & w, const Op & op) {
    const Path p = join(op.parent, op.name);
    auto under = [&](const Path & q) { return q == p || q.compare(0, p.size() + 1, p + "/") == 0; };
    if(op.kind == "createFile") w.file = true;
    else if(op.kind == "removeFile") { w.file = false; w.groups.clear(); w.datasets.clear(); }
    else if(op.kind == "createGroup") w.groups[p] = 1;
    else if(op.kind == "createDataset") w.datasets[p] = op.cfg;
    else if(op.kind == "removeGroup" || op.kind == "removeDataset") {
        std::erase_if(w.groups, [&](auto & x) { return under(x.first); });
        std::erase_if(w.datasets, [&](auto & x) { return under(x.first); });
    }
}

static Objects siblings(const Path & root) {
    Objects r;
    if(root.empty()) return r;
    for(auto & k : {root + "2/.zgroup", root + "2/data/0.0", root + ".zgroup", root + "x", root + "-1/attributes.json", std::string("other/zarr.json")}) r[k] = "{\"sibling\": 1}";
    return r;
}

static void histories(pbt::Gen & g, bool faults) {
    auto & st = fakeaws::store();
    World w;
    w.fmt = g.draw(3);
    FsSide a{g.scratch + "/f"};
    fs::create_directories(g.scratch);
    S3Side b{g.pick(std::vector<std::string>{"p", "", "p/q.zarr", "data"})};
    st.disarm();
    st.buckets.clear();
    const Objects sib = siblings(b.root);
    st.buckets[BUCKET] = sib;
    st.buckets["another"]["p/.zgroup"] = "{}";
    st.page = g.pick(std::vector<std::size_t>{1000, 1, 2, 3, 7});
    st.unknownLength = g.flip(1, 4);
    st.truncatedLists = 0;
    g.desc << "root '" << b.root << "' page " << st.page << (st.unknownLength ? " lengths unknown" : "");
    int chunks = 0;
    const int n = g.range(1, faults ? 14 : 25);
    for(int i = 0; i < n; ++i) {
        const Op op = genOp(g, w);
        g.desc << "\n  " << op.str();
        const Objects before = objectsOf(b.root);
        fakeaws::Kind kind = fakeaws::Kind::none;
        if(faults && g.flip(2, 3)) {
            kind = fakeaws::Kind(g.range(1, 6));
            const long at = g.draw(g.flip() ? 3 : 12), count = g.flip() ? 1 : 1000000;
            g.desc << "  {fault " << int(kind) << " at " << at << " x" << count << "}";
            st.arm(at, kind, count);
        }
        Result rb = run(b, op);
        const long fired = st.fired;
        const std::string firedOn = st.firedOn;
        st.disarm();
        st.fired = 0;
        bool skip = false;
        if(kind != fakeaws::Kind::none && fired > 0) {
            g.nontrivial = true;
            g.label("fault:" + std::to_string(int(kind)));
            g.label(rb.threw ? "fault-raised" : "fault-without-error");
            if(rb.threw) {
                g.desc << " -> " << firedOn << rb.what;
                const Objects after = objectsOf(b.root);
                // nothing but the target has changed
                std::string own = op.kind.find("ile") != std::string::npos ? "" : join(op.parent, op.name);
                for(auto & kv : before) if(own.size() && kv.first.compare(0, own.size() + 1, own + "/") != 0) { auto it = after.find(kv.first); PBT_CHECK(it != after.end() && it->second == kv.second, op.kind << " failed (" << rb.what << ") and changed object " << kv.first); }
                for(auto & kv : after) if(own.size() && kv.first.compare(0, own.size() + 1, own + "/") != 0) PBT_CHECK(before.count(kv.first), op.kind << " failed (" << rb.what << ") and made object " << kv.first);
                if(!op.mutates()) PBT_CHECK(after == before, op.kind << " changed something");
                if(op.mutates() && !op.repeatable()) {
                    // either nothing or all was created
                    if(after == before) skip = true;
                    else if(op.kind == "createGroup" && w.fmt == 0) break;
                    else rb.threw = false;
                } else rb = run(b, op);   // without the fault
            }
        }
        if(skip) continue;
        const Result ra = run(a, op);
        if(faults && kind != fakeaws::Kind::none && fired > 0 && !ra.threw && op.kind.substr(0, 6) == "create") rb.what = ra.what;
        PBT_CHECK(ra.threw == rb.threw, op.str() << ": file system " << (ra.threw ? "raises " : "gives ") << ra.what << ", S3 " << (rb.threw ? "raises " : "gives ") << rb.what << (fired ? " after a failed request: " + firedOn : ""));
        if(!ra.threw) {
            PBT_CHECK(ra.what == rb.what, op.str() << ": file system gives " << ra.what << ", S3 gives " << rb.what << (fired ? " after a failed request: " + firedOn : ""));
            account(w, op);
            g.label("op:" + op.kind);
        } else g.label("refused:" + op.kind);
        const Objects fa = filesOf(a.root), fb = objectsOf(b.root);
        const std::string d = diff(fa, fb);
        PBT_CHECK(d.empty(), "after " << op.str() << ": " << d << (fired ? " (failed request: " + firedOn + ")" : ""));
        if(!op.mutates()) PBT_CHECK(fb == before, op.kind << " changed an object");
        for(auto & kv : sib) PBT_CHECK(st.buckets[BUCKET].count(kv.first) && st.buckets[BUCKET][kv.first] == kv.second, "after " << op.str() << ": object " << kv.first << " outside of the container was changed");
        std::size_t total = fb.size() + sib.size();
        PBT_CHECK(st.buckets[BUCKET].size() == total, "after " << op.str() << ": an object outside of the container appeared");
        int c = 0; for(auto & kv : fb) c += !isDoc(kv.first);
        chunks = std::max(chunks, c);
    }
    PBT_CHECK(st.buckets.size() == 2 && st.buckets["another"].size() == 1, "another bucket was changed");
    g.label("chunks", chunks > 0); g.label("paged-listing", st.truncatedLists > 0);
    if(!faults) g.nontrivial = chunks > 0;
}

PBT_TEST(history) { histories(g, false); }
PBT_TEST(faults) { histories(g, true); }

// damaged documents and chunks: the same bytes in a file and in an object are judged the same
PBT_TEST(damaged) {
    auto & st = fakeaws::store();
    st.disarm(); st.buckets.clear(); st.buckets[BUCKET]; st.page = 1000; st.unknownLength = g.flip(1, 4);
    World w; w.fmt = g.draw(3); w.file = true;
    FsSide a{g.scratch + "/f"}; S3Side b{"p"};
    fs::create_directories(g.scratch);
    auto both = [&](const Op & op) {
        const Result rb = run(b, op), ra = run(a, op);
        PBT_CHECK(ra.threw == rb.threw, op.str() << ": file system " << (ra.threw ? "raises " : "gives ") << ra.what << ", S3 " << (rb.threw ? "raises " : "gives ") << rb.what);
        if(!ra.threw) PBT_CHECK(ra.what == rb.what, op.str() << ": file system gives " << ra.what << ", S3 gives " << rb.what);
        g.label(ra.threw ? "raised" : "answered");
        return !ra.threw;
    };
    Op op; op.kind = "createFile"; op.cfg.fmt = w.fmt; both(op);
    GenOpt o; o.maxChunks = 12; o.maxDim = 2; o.maxExtent = {0, 12, 6};
    o.dtypes = {"uint8", "int16", "float64"};
    o.fmts = w.fmt >= 2 ? std::vector<int>{2, 3} : std::vector<int>{w.fmt};
    Op ds; ds.kind = "createDataset"; ds.name = "d"; ds.cfg = genCfg(g, o);
    if(!both(ds)) return;
    ds.kind = "write"; ds.region.begin = Shape(ds.cfg.nd(), 0); ds.region.shape = ds.cfg.shape; ds.seed = 1 + 4 * g.draw(1000); both(ds);
    ds.kind = "dsAttrs"; ds.attrs = json{{"a", 1}}; both(ds);
    std::vector<std::string> names;
    for(auto & kv : filesOf(a.root)) names.push_back(kv.first);
    for(int rounds = g.range(1, 2); rounds > 0; --rounds) {
        const std::string name = g.pick(names);
        std::string data = st.buckets[BUCKET]["p/" + name];
        const int how = g.draw(10);
        const bool doc = isDoc(name);
        if(how < 2 && doc && data.size() < 50000) {   // replace a value somewhere
            json j = json::parse(data, nullptr, false);
            if(j.is_object() && !j.empty()) {
                json * at = &j;
                while((at->is_object() || at->is_array()) && !at->empty() && (at == &j || g.flip())) { auto it = at->begin(); std::advance(it, g.draw(at->size())); at = &*it; }
                if(at->is_object() && !at->empty() && g.flip(2, 5)) { auto it = at->begin(); std::advance(it, g.draw(at->size())); at->erase(it); }
                else *at = g.pick(std::vector<json>{nullptr, -1, 0, 3, "x", "uint16", "/", json::array(), json::object(), 2.5, true, "gzip"});
            }
            data = j.dump();
        } else if(how < 4) data = data.substr(0, g.draw(data.size() + 1));
        else if(how == 4) data = "";
        else if(how == 5) data += g.pick(std::vector<std::string>{"}", "x", "\n\n ", std::string(1, '\0'), "{}"});
        else if(how == 6 && doc) data = g.pick(std::vector<std::string>{"[]", "null", "1", "\"x\"", "{}", "[{}]"});
        else if(how == 7 && doc) { const std::size_t n = g.pick(std::vector<std::size_t>{50, 200000}); const std::string deep = std::string(n, '[') + std::string(n, ']'); data = g.flip() ? deep : "{\"a\":" + deep + "," + data.substr(data.find('{') == std::string::npos ? 0 : data.find('{') + 1); }
        else if(!data.empty()) for(int k = g.range(1, 3); k > 0; --k) data[g.draw(data.size())] ^= char(1 << g.draw(8));
        if(doc && data.empty()) continue;   // the S3 backend takes an empty document for one without entries
        g.desc << "\n  damage " << how << " of " << name << ": " << data.substr(0, 200);
        st.buckets[BUCKET]["p/" + name] = data;
        std::ofstream(fs::path(a.root) / name, std::ios::binary) << data;
    }
    static const std::vector<std::string> ks{"getMeta", "getRegion", "getChunk", "getDsAttrs", "getFile", "getKind", "getKeys", "getFileAttrs"};
    for(int n = g.range(2, 6); n > 0; --n) {
        Op q; q.name = "d"; q.cfg = ds.cfg; q.kind = g.pick(ks);
        if(q.kind == "getRegion") q.region = genRegion(g, ds.cfg.shape);
        if(q.kind == "getChunk") q.chunk = genChunk(g, ds.cfg);
        g.desc << "\n  " << q.str();
        both(q);
    }
    g.nontrivial = true;
}

// containers with more objects than one request can list or delete
PBT_TEST(many) {
    auto & st = fakeaws::store();
    st.disarm(); st.buckets.clear(); st.unknownLength = false;
    st.page = g.pick(std::vector<std::size_t>{1000, 999, 400, 1});
    auto & b = st.buckets[BUCKET];
    const std::size_t n = st.page == 1 ? g.range(1, 60) : g.pick(std::vector<std::size_t>{1, 998, 999, 1000, 1001, 1999, 2000, 2001, 2300}) + g.draw(3);
    const bool keysToo = g.flip();
    g.desc << n << " objects, page " << st.page;
    std::set<std::string> want;
    b["p/.zgroup"] = "{\"zarr_format\":2}"; b["p2/x"] = "1"; b["p.x"] = "1";
    b["p/g/.zgroup"] = "{\"zarr_format\":2}";
    for(std::size_t i = 0; i < n; ++i) {
        const std::string name = keysToo ? "n" + std::to_string(i) : "d";
        b["p/g/" + name + "/" + (keysToo ? ".zarray" : std::to_string(i))] = "{}";
        want.insert(name);
    }
    b["p/g2/.zgroup"] = "{}";
    S3Side s{"p"};
    const auto f = s.file(0);
    z5::s3::handle::Group gr(f, "g");
    std::vector<std::string> names; gr.keys(names);
    PBT_CHECK(std::set<std::string>(names.begin(), names.end()) == want && names.size() == want.size(), names.size() << " names listed, " << want.size() << " expected");
    const auto k = g.pick(names);
    PBT_CHECK(gr.in(k) && !gr.in("m") && !gr.in(k + "0000x"), "membership");
    if(g.flip()) { gr.remove(); PBT_CHECK(!gr.exists() && b.size() == 4 && b.count("p/g2/.zgroup") && b.count("p2/x") && b.count("p.x") && b.count("p/.zgroup"), b.size() << " objects left"); }
    else { f.remove(); PBT_CHECK(!f.exists() && b.size() == 2, b.size() << " objects left"); }
    g.nontrivial = n > st.page || n > 1000;
}

PBT_MAIN

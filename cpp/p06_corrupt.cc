// parts: zds
// P06: damaged files. Whatever the files of a container hold, opening and reading either succeeds or throws;
// the sanitizers watch the memory accesses.
#include "zds.hpp"
#include "throwing_new.hpp"
#include "z5/attributes.hxx"
#include "z5/factory.hxx"
#include "z5/metadata.hxx"
#include "z5/util/functions.hxx"

using namespace zds;
namespace fs = std::filesystem;
namespace ma = z5::multiarray;
using Bytes = std::string;

static Bytes slurp(const fs::path & p) { std::ifstream f(p, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(f), {}); }
static void spit(const fs::path & p, const Bytes & b) { std::ofstream f(p, std::ios::binary); f.write(b.data(), b.size()); }

static uint32_t crc32c(const Bytes & b) {
    uint32_t c = 0xFFFFFFFF;
    for(unsigned char x : b) { c ^= x; for(int k = 0; k < 8; ++k) c = (c >> 1) ^ (c & 1 ? 0x82F63B78u : 0); }
    return ~c;
}

static uint64_t evil(pbt::Gen & g) {
    static const std::vector<uint64_t> v = {0, 1, 2, 3, 4, 7, 8, 16, 63, 64, 100, 255, 256, 1000, 32767, 32768, 65535, 65536, 1 << 20, (1ull << 24) - 1, 0x7fffffff, 0x80000000ull,
        0xffffffffull, 0x100000000ull, 0x3fffffffffffffffull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffff0ull, 0xfffffffffffffffeull, 0xffffffffffffffffull};
    return g.flip(1, 4) ? g.draw(1 << 20) : g.pick(v);
}

static void putBE(Bytes & b, std::size_t at, uint64_t v, int n) { for(int k = 0; k < n; ++k) if(at + k < b.size()) b[at + k] = char(v >> (8 * (n - 1 - k))); }
static void putLE(Bytes & b, std::size_t at, uint64_t v, int n) { for(int k = 0; k < n; ++k) if(at + k < b.size()) b[at + k] = char(v >> (8 * k)); }

// What is known about a damaged chunk file
struct Damage { bool prefix = false; std::string what; };

static Damage damage(pbt::Gen & g, Bytes & b, const Cfg & c, const std::vector<Bytes> & others) {
    Damage d;
    const Bytes before = b;
    std::ostringstream o;
    const int n = g.flip(2, 3) ? 1 : g.range(2, 3);
    for(int i = 0; i < n; ++i) {
        const int k = g.draw(14);
        const std::size_t at = b.empty() ? 0 : (g.flip() ? g.draw(std::min<std::size_t>(b.size(), 40)) : g.draw(b.size()));
        switch(k) {
            case 0: case 1: { const std::size_t s = g.flip(1, 8) ? 0 : b.empty() ? 0 : g.draw(b.size()); b.resize(s); o << " truncate(" << s << ")"; break; }
            case 2: b += Bytes(1 + g.draw(40), char(g.draw(256))); o << " extend"; break;
            case 3: if(!b.empty()) b[at] = char(b[at] ^ (1 << g.draw(8))); o << " flip(" << at << ")"; break;
            case 4: if(!b.empty()) b[at] = char(g.draw(256)); o << " set(" << at << ")"; break;
            case 5: { const auto v = evil(g); const int w = 1 << g.range(1, 3); if(g.flip()) putBE(b, at, v, w); else putLE(b, at, v, w); o << " int" << 8 * w << "(" << at << "," << v << ")"; break; }
            case 6: if(!b.empty()) { const std::size_t m = 1 + g.draw(std::min<std::size_t>(b.size() - at, 30)); b.erase(at, m); o << " erase(" << at << "," << m << ")"; } break;
            case 7: { Bytes x; const int m = 1 + g.draw(30); for(int j = 0; j < m; ++j) x += char(g.draw(256)); b.insert(at, x); o << " insert(" << at << "," << m << ")"; break; }
            case 8: { const int m = g.draw(200); b.clear(); for(int j = 0; j < m; ++j) b += char(g.draw(256)); o << " garbage(" << m << ")"; break; }
            case 9: if(!others.empty()) { b = g.pick(others); o << " other file"; } break;
            case 10: { for(std::size_t j = at; j < b.size() && j < at + 64; ++j) b[j] = 0; o << " zeros(" << at << ")"; break; }
            default:
                if(c.fmt == 0) {
                    // the header: mode, number of dimensions, shape, number of elements of a varlen chunk
                    const int f = g.draw(5);
                    const auto v = evil(g);
                    if(f == 0) putBE(b, 0, g.draw(4), 2);
                    else if(f == 1) putBE(b, 2, g.flip() ? g.draw(8) : v, 2);
                    else if(f == 2) putBE(b, 4 + 4 * g.draw(c.nd()), v, 4);
                    else if(f == 3) { putBE(b, 0, 1, 2); if(b.size() > 4 + 4 * c.nd()) { Bytes x(4, 0); putBE(x, 0, v, 4); b.insert(4 + 4 * c.nd(), x); } }
                    else { putBE(b, 0, 1, 2); putBE(b, 4 + 4 * c.nd(), v, 4); }
                    o << " header(" << f << "," << v << ")";
                } else if(c.fmt == 3) {
                    // the index at the end, with a matching checksum
                    std::size_t slots = 1;
                    for(std::size_t q = 0; q < c.nd(); ++q) slots *= c.shards[q] / c.chunks[q];
                    const std::size_t len = 16 * slots + 4;
                    if(b.size() < len) break;
                    const std::size_t base = b.size() - len;
                    const int m = g.range(1, 3);
                    for(int j = 0; j < m; ++j) {
                        const std::size_t e = base + 8 * g.draw(2 * slots);
                        uint64_t v = evil(g);
                        uint64_t old = 0; for(int q = 7; q >= 0; --q) old = old << 8 | (unsigned char)b[e + q];
                        if(g.flip()) v = old + g.range(-8, 8);
                        putLE(b, e, v, 8);
                        o << " index(" << (e - base) / 8 << "," << v << ")";
                    }
                    if(g.flip(9, 10)) putLE(b, b.size() - 4, crc32c(b.substr(base, 16 * slots)), 4);
                } else { putLE(b, 4 * g.draw(8), evil(g), 4); o << " word"; }
        }
    }
    d.prefix = b.size() < before.size() && before.compare(0, b.size(), b) == 0;
    d.what = o.str();
    return d;
}

// JSON documents

static nlohmann::json evilJson(pbt::Gen & g, const nlohmann::json & old) {
    switch(g.draw(22)) {
        case 0: return nullptr;
        case 1: return -1;
        case 2: return 0;
        case 3: return evil(g);
        case 4: return 1.5;
        case 5: return 1e300;
        case 6: return "";
        case 7: return g.pick(std::vector<std::string>{"blosc", "gzip", "zlib", "raw", "zstd", "lz4", "xz", "bzip2", "bz2", "crc32c", "bytes", "sharding_indexed", "transpose"});
        case 8: return g.pick(std::vector<std::string>{"<f8", "<c16", ">i2", "|u1", "uint8", "float64", "<U4", "|S8", "|b1", "bool", "complex64", "float16"});
        case 9: return nlohmann::json::array();
        case 10: return nlohmann::json::object();
        case 11: return true;
        case 12: return g.pick(std::vector<std::string>{"NaN", "Infinity", "-Infinity", "0x7fc00000", "abc", "9999999999999999999999", "start", "end", "F", "C", "/", ".", "../..", std::string("a\0b", 3)});
        case 13: return nlohmann::json::array({old, old});
        case 14: { auto j = old; for(int i = g.range(1, 300); i > 0; --i) j = nlohmann::json::array({std::move(j)}); return j; }
        case 15: { nlohmann::json j = nlohmann::json::array(); for(int i = g.range(1, 70); i > 0; --i) j.push_back(g.flip() ? 1 : evil(g)); return j; }
        case 16: if(old.is_number_unsigned()) return old.get<uint64_t>() + g.range(0, 6); return old;
        case 17: if(old.is_number_unsigned()) return old.get<uint64_t>() * g.range(2, 1000); return old;
        case 18: if(old.is_string()) return old.get<std::string>() + "x"; return old;
        case 19: if(old.is_array() && old.size()) { auto j = old; j.erase(j.begin()); return j; } return old;
        case 20: if(old.is_array()) { auto j = old; j.push_back(j.size() ? j[0] : nlohmann::json(1)); return j; } return old;
        default: return -evil(g) * 1.0;
    }
}

static void nodes(nlohmann::json & j, std::vector<nlohmann::json *> & out) { out.push_back(&j); if(j.is_structured()) for(auto & x : j) nodes(x, out); }

static std::string damageJson(pbt::Gen & g, Bytes & b, const Cfg & c, const std::vector<Bytes> & others) {
    std::ostringstream o;
    const int k = g.draw(10);
    if(k == 0) return "text" + damage(g, b, c, others).what;
    if(k == 1) {
        static const std::vector<std::string> docs = {"", "null", "[]", "{}", "1", "\"a\"", "{\"zarr_format\": 2}", "{\"zarr_format\": 3}", "{\"zarr_format\": 3, \"node_type\": \"array\"}", "{\"n5\": 3}", "\xff\xfe", "{\"a\": \"\\ud800\"}"};
        b = g.pick(docs);
        return " document " + b;
    }
    if(k == 2) {
        const std::size_t n = g.pick(std::vector<std::size_t>{100, 500, 60000, 300000});
        const bool obj = g.flip();
        Bytes deep;
        for(std::size_t i = 0; i < n; ++i) deep += obj ? "{\"a\":" : "[";
        deep += "1";
        for(std::size_t i = 0; i < n; ++i) deep += obj ? "}" : "]";
        const auto at = b.find('{');
        if(at == Bytes::npos || g.flip(1, 4)) b = deep;
        else b = b.substr(0, at + 1) + (g.flip() ? "\"attributes\":" : "\"deep\":") + deep + (b.size() > at + 2 && b.find('"', at) != Bytes::npos ? "," : "") + b.substr(at + 1);
        return " nesting " + std::to_string(n);
    }
    if(b.size() > 40000) return " (nested already)";
    nlohmann::json j = nlohmann::json::parse(b, nullptr, false);
    if(j.is_discarded()) return " (not json)";
    const int n = g.range(1, 3);
    for(int i = 0; i < n; ++i) {
        std::vector<nlohmann::json *> v;
        nodes(j, v);
        const int how = g.draw(7);
        if(how == 6) {
            // an extent, chunk or shard length: negative or close to the limits
            std::vector<nlohmann::json *> lens;
            for(auto a : v) if(a->is_array() && a->size() && (*a)[0].is_number()) for(auto & e : *a) lens.push_back(&e);
            if(lens.empty()) continue;
            auto & x = *g.pick(lens);
            const uint64_t limit = g.pick(std::vector<uint64_t>{0, uint64_t(1) << 63, uint64_t(1) << 32, uint64_t(1) << 62});
            const int off = g.range(-12, 12);
            nlohmann::json y = limit + int64_t(off);
            if(limit == 0 && g.flip()) y = -1 - std::abs(off);
            o << " length " << x.dump().substr(0, 60) << " -> " << y.dump();
            x = y;
            continue;
        }
        auto & x = *g.pick(v);
        if(how == 0 && x.is_object() && x.size()) { auto it = x.begin(); std::advance(it, g.draw(x.size())); o << " drop " << it.key(); x.erase(it); }
        else if(how == 1 && x.is_object()) { const auto key = g.pick(std::vector<std::string>{"dimensions", "blockSize", "shape", "chunks", "filters", "codecs", "storage_transformers", "chunk_key_encoding", "compressionType", "order", "configuration", "attributes", "dimension_separator"}); o << " add " << key; x[key] = evilJson(g, x); }
        else { auto y = evilJson(g, x); o << " " << x.dump().substr(0, 60) << " -> " << y.dump().substr(0, 60); x = y; }
    }
    b = j.dump();
    return o.str();
}

// Read everything there is

template<class F> static bool attempt(F && f, const char * = "") {
    try { f(); return true; }
    catch(const pbt::Fail &) { throw; }
    catch(const std::exception &) { return false; }
}

template<class F> static void dispatchAll(z5::types::Datatype t, F && f) {
    switch(t) {
        case z5::types::int8: f(int8_t()); break;
        case z5::types::int16: f(int16_t()); break;
        case z5::types::int32: f(int32_t()); break;
        case z5::types::int64: f(int64_t()); break;
        case z5::types::uint8: f(uint8_t()); break;
        case z5::types::uint16: f(uint16_t()); break;
        case z5::types::uint32: f(uint32_t()); break;
        case z5::types::uint64: f(uint64_t()); break;
        case z5::types::float32: f(float()); break;
        case z5::types::float64: f(double()); break;
        case z5::types::complex64: f(std::complex<float>()); break;
        case z5::types::complex128: f(std::complex<double>()); break;
        default: break;
    }
}

// A region of at most 64 elements, anywhere in a (possibly absurd) shape
static Region small(pbt::Gen & g, const Shape & shape) {
    Region r;
    std::size_t left = 64;
    const int where = g.draw(3);
    for(auto s : shape) {
        const std::size_t n = std::min<std::size_t>(std::min<std::size_t>(s, left), 1 + g.draw(12));
        const std::size_t b = where == 0 ? 0 : where == 1 ? s - n : g.draw(s - n + 1);
        r.begin.push_back(b);
        r.shape.push_back(n);
        left = std::max<std::size_t>(1, left / std::max<std::size_t>(n, 1));
    }
    return r;
}

// Two reads into differently prepared buffers: a read that succeeds defines every element
template<class T> static bool readTwice(const z5::Dataset & ds, const Region & r, int threads, std::vector<T> & out) {
    const std::size_t n = prod(r.shape);
    std::unique_ptr<T[]> a(new T[n]), b(new T[n]);
    std::memset((void *)a.get(), 0x55, n * sizeof(T));
    std::memset((void *)b.get(), 0xaa, n * sizeof(T));
    const bool x = attempt([&]{ ma::readSubarray<T>(ds, ma::makeView(a.get(), r.shape), r.begin.begin(), threads); });
    const bool y = attempt([&]{ ma::readSubarray<T>(ds, ma::makeView(b.get(), r.shape), r.begin.begin(), threads); });
    PBT_CHECK(x == y, "reading " << show(r.begin) << show(r.shape) << " twice: succeeds and fails");
    if(x) PBT_CHECK(std::memcmp(a.get(), b.get(), n * sizeof(T)) == 0, "reading " << show(r.begin) << show(r.shape) << " returns, but leaves elements unset");
    out.assign(a.get(), a.get() + (x ? n : 0));
    return x;
}

template<class T> static void readChunk(const z5::Dataset & ds, const Shape & id) {
    attempt([&]{
        if(!ds.chunkExists(id)) return;
        std::size_t n = 0;
        const bool varlen = ds.checkVarlenChunk(id, n);
        if(!varlen) {
            Shape s; ds.getChunkShape(id, s);
            n = ds.isZarr() ? ds.defaultChunkSize() : prod(s);
        }
        if(n > (1u << 24)) throw std::bad_alloc();
        std::unique_ptr<T[]> a(new T[n]), b(new T[n]);
        std::memset((void *)a.get(), 0x55, n * sizeof(T));
        std::memset((void *)b.get(), 0xaa, n * sizeof(T));
        const bool x = attempt([&]{ ds.readChunk(id, a.get()); });
        const bool y = attempt([&]{ ds.readChunk(id, b.get()); });
        PBT_CHECK(x == y, "reading chunk " << show(id) << " twice: succeeds and fails");
        if(x) PBT_CHECK(std::memcmp(a.get(), b.get(), n * sizeof(T)) == 0, "reading chunk " << show(id) << " returns, but leaves elements unset");
    });
    attempt([&]{ Shape s; ds.getChunkShape(id, s, true); });
    attempt([&]{ ds.getChunkShape(id, 0u, true); ds.getChunkSize(id); });
    attempt([&]{ std::vector<char> raw; ds.readRawChunk(id, raw); });
    attempt([&]{ fs::path p; ds.chunkPath(id, p); });
}

static std::unique_ptr<z5::Dataset> explore(pbt::Gen & g, const std::string & path) {
    z5::filesystem::handle::File f(path, z5::FileMode(z5::FileMode::r));
    attempt([&]{ f.isZarr(); std::vector<std::string> keys; f.keys(keys); for(auto & k : keys) f.in(k); });
    attempt([&]{ nlohmann::json j; z5::readAttributes(f, j); j.dump(); });
    attempt([&]{ z5::filesystem::handle::Group h(f, "g"); nlohmann::json j; z5::readAttributes(h, j); });
    attempt([&]{ z5::Metadata m(true); nlohmann::json j; z5::filesystem::readMetadata(f, j); });
    attempt([&]{ z5::isSubGroup(f, "data"); z5::isSubGroup(f, "g"); });
    attempt([&]{ z5::filesystem::handle::Dataset h(f, "data"); nlohmann::json j; z5::readAttributes(h, j); });
    std::unique_ptr<z5::Dataset> ds;
    if(!attempt([&]{ ds = z5::openDataset(f, "data"); })) return nullptr;
    attempt([&]{ std::string s; ds->getCompressor(s); z5::types::CompressionOptions o; ds->getCompressionOptions(o); });
    PBT_CHECK(ds->shape().size() == ds->defaultChunkShape().size() && ds->dimension() == ds->shape().size() && ds->dimension() > 0, "the opened dataset has shape " << show(ds->shape()) << " and chunks " << show(ds->defaultChunkShape()));
    for(std::size_t d = 0; d < ds->dimension(); ++d) PBT_CHECK(ds->defaultChunkShape(d) > 0, "chunks without extent");
    return ds;
}

static void probe(pbt::Gen & g, const z5::Dataset & ds) {
    dispatchAll(ds.getDtype(), [&](auto t) {
        using T = decltype(t);
        for(int i = 0; i < 3; ++i) {
            const auto r = small(g, ds.shape());
            std::vector<T> v;
            readTwice<T>(ds, r, g.flip(1, 4) ? 3 : 1, v);
            Shape id;
            for(std::size_t d = 0; d < ds.dimension(); ++d) id.push_back(r.begin[d] / ds.defaultChunkShape(d));
            readChunk<T>(ds, id);
        }
        if(ds.numberOfChunks() < 300 && ds.defaultChunkSize() < 100000) {
            if constexpr(!std::is_same_v<T, std::complex<float>> && !std::is_same_v<T, std::complex<double>>) {
                attempt([&]{ std::set<T> s; z5::util::unique(ds, 1 + g.draw(2), s); });
            }
        }
    });
}

template<class T> static void fillAll(pbt::Gen & g, z5::Dataset & ds, Model<T> & ref, const Cfg & c) {
    Maker<T> mk(g, ref.fill);
    if(mk.mode == 3) mk.mode = 0;
    std::vector<T> all(prod(c.shape));
    for(std::size_t i = 0; i < all.size(); ++i) ref.data[i] = all[i] = mk();
    ma::writeSubarray<T>(ds, ma::makeView(static_cast<const T *>(all.data()), c.shape), Shape(c.nd(), 0).begin(), 1);
}

static bool isJson(const fs::path & p) { return p.extension() == ".json" || p.filename().string().rfind(".z", 0) == 0; }

static Cfg config(pbt::Gen & g) {
    GenOpt o;
    o.maxChunks = 30;
    return genCfg(g, o);
}

PBT_TEST(files) {
    const auto c = config(g);
    g.desc << c.str();
    const std::string path = g.scratch + "/x";
    dispatch(c.dtype, [&](auto t) {
        using T = decltype(t);
        auto ds = create(c, path);
        Model<T> ref(c);
        fillAll(g, *ds, ref, c);
        if(c.fmt == 0 && g.flip(1, 4)) {
            const auto id = genChunk(g, c);
            std::vector<T> v(g.range(1, 20), T(3));
            ds->writeChunk(id, v.data(), true, v.size());
        }
        z5::filesystem::handle::File f(path);
        z5::createGroup(f, "g", c.fmt > 1 ? 3 : 2);
        const nlohmann::json attrs = {{"a", 1}, {"b", {1, "x", nullptr}}, {"c", {{"d", 2.5}}}};
        z5::writeAttributes(f, attrs);
        z5::writeAttributes(z5::filesystem::handle::Group(f, "g"), attrs);
        z5::writeAttributes(z5::filesystem::handle::Dataset(f, "data"), attrs);
    });
    const bool meta = g.flip(2, 5);
    std::vector<fs::path> files;
    std::vector<Bytes> others;
    for(auto & e : fs::recursive_directory_iterator(path)) if(e.is_regular_file()) {
        if(isJson(e.path()) == meta) files.push_back(e.path());
        others.push_back(slurp(e.path()));
    }
    std::sort(files.begin(), files.end()); std::sort(others.begin(), others.end());
    if(files.empty()) return;
    const int n = g.flip(3, 4) ? 1 : 2;
    bool changed = false;
    for(int i = 0; i < n; ++i) {
        const auto p = g.pick(files);
        Bytes b = slurp(p), old = b;
        const std::string what = meta ? damageJson(g, b, c, others) : damage(g, b, c, others).what;
        changed |= b != old;
        g.desc << "\n" << fs::relative(p, path).string() << ":" << what.substr(0, 300);
        spit(p, b);
    }
    const auto ds = explore(g, path);
    if(ds) probe(g, *ds);
    g.nontrivial = changed;
    g.label(meta ? "metadata" : "data"); g.label("opened", bool(ds)); g.label("fmt" + std::to_string(c.fmt)); g.label("codec:" + c.codec);
}

// One chunk file is damaged: all other chunks read as before, and the damaged one is never half right
PBT_TEST(chunk) {
    const auto c = config(g);
    g.desc << c.str();
    const std::string path = g.scratch + "/x";
    dispatch(c.dtype, [&](auto t) {
        using T = decltype(t);
        auto ds = create(c, path);
        Model<T> ref(c);
        fillAll(g, *ds, ref, c);
        std::vector<fs::path> files;
        std::vector<Bytes> others;
        for(auto & e : fs::recursive_directory_iterator(path)) if(e.is_regular_file() && !isJson(e.path())) { files.push_back(e.path()); others.push_back(slurp(e.path())); }
        std::sort(files.begin(), files.end()); std::sort(others.begin(), others.end());
        if(files.empty()) return;
        const auto p = g.pick(files);
        Bytes b = slurp(p);
        const Bytes old = b;
        const bool cut = g.flip(1, 2);
        Damage d;
        if(cut) { b.resize(g.flip(1, 4) ? b.size() - 1 : g.draw(b.size())); d.prefix = true; d.what = " truncate(" + std::to_string(b.size()) + " of " + std::to_string(old.size()) + ")"; }
        else d = damage(g, b, c, others);
        g.desc << "\n" << fs::relative(p, path).string() << ":" << d.what.substr(0, 300);
        spit(p, b);
        if(g.flip()) ds = open(path, "r");
        int bad = 0, good = 0;
        eachPos(c.grid(), [&](const Shape & id) {
            auto r = chunkRegion(c, id);
            fs::path cp; ds->chunkPath(id, cp);
            std::vector<T> got;
            const bool mine = fs::weakly_canonical(cp) == fs::weakly_canonical(p);
            const bool ok = readTwice<T>(*ds, r, 1, got);
            if(!mine) PBT_CHECK(ok, "chunk " << show(id) << " is not damaged, but cannot be read");
            if(mine) ++(ok ? good : bad);
            if(!mine || (ok && (d.prefix || b == old))) {
                std::size_t i = 0;
                eachPos(r.shape, [&](const Shape & q) { PBT_CHECK(ok ? same(got[i++], ref(add(r.begin, q))) : true, (mine ? "the truncated chunk " : "the undamaged chunk ") << show(id) << " reads wrong elements at " << show(q)); });
            }
            if(mine) readChunk<T>(*ds, id);
        });
        if(d.prefix && (c.codec == "raw" || b.empty() || c.fmt == 3)) PBT_CHECK(good == 0, "a truncated file was read");
        // an array whose undamaged part was read can be written again: either this fails, or it is complete
        ds = open(path);
        std::vector<T> all(ref.data);
        const bool again = attempt([&]{ ma::writeSubarray<T>(*ds, ma::makeView(static_cast<const T *>(all.data()), c.shape), Shape(c.nd(), 0).begin(), 1); });
        if(again) {
            std::vector<T> back(all.size());
            ma::readSubarray<T>(*ds, ma::makeView(back.data(), c.shape), Shape(c.nd(), 0).begin(), 1);
            for(std::size_t i = 0; i < all.size(); ++i) PBT_CHECK(same(all[i], back[i]), "after the array was written again: element " << i);
        }
        g.label("rewritten", again);
        g.nontrivial = b != old;
        g.label("raised", bad > 0); g.label("survived", good > 0); g.label("prefix", d.prefix); g.label("fmt" + std::to_string(c.fmt)); g.label("codec:" + c.codec);
    });
}

// A chunk file that is well formed, but holds fewer (or more) elements than the chunk
PBT_TEST(size) {
    auto c = config(g);
    if(g.flip(1, 2)) for(std::size_t d = 0; d < c.nd(); ++d) { c.chunks[d] = std::max<std::size_t>(c.chunks[d], 2); c.shape[d] = std::max(c.shape[d], c.chunks[d]); if(c.fmt == 3) c.shards[d] = c.chunks[d] * g.range(1, 3); }
    Cfg o = c;
    const bool more = g.flip(1, 4);
    // the same number of chunks per shard, but chunks of another size
    const std::size_t ax = g.draw(c.nd());
    if(more) o.chunks[ax] += g.range(1, 5);
    else { if(c.chunks[ax] < 2) return; o.chunks[ax] = g.range(1, c.chunks[ax] - 1); }
    if(c.fmt == 3) for(std::size_t d = 0; d < c.nd(); ++d) o.shards[d] = o.chunks[d] * (c.shards[d] / c.chunks[d]);
    for(std::size_t d = 0; d < c.nd(); ++d) o.shape[d] = c.fmt == 3 ? o.shards[d] : o.chunks[d];
    g.desc << c.str() << "\nchunks replaced by those of " << show(o.chunks);
    const std::string path = g.scratch + "/x", path2 = g.scratch + "/y";
    dispatch(c.dtype, [&](auto t) {
        using T = decltype(t);
        auto ds = create(c, path);
        auto ds2 = create(o, path2);
        Model<T> ref(c), ref2(o);
        fillAll(g, *ds, ref, c);
        {
            std::vector<T> all(prod(o.shape));
            Maker<T> mk(g, ref.fill);
            for(auto & x : all) do x = mk(); while(same(x, ref.fill) && (mk.mode = 0, true));
            ma::writeSubarray<T>(*ds2, ma::makeView(static_cast<const T *>(all.data()), o.shape), Shape(c.nd(), 0).begin(), 1);
        }
        // a chunk that is not at the edge
        Shape id;
        for(std::size_t d = 0; d < c.nd(); ++d) id.push_back(g.draw(std::max<std::size_t>(1, c.shape[d] / c.chunks[d])));
        fs::path from, to;
        ds->chunkPath(id, to); ds2->chunkPath(Shape(c.nd(), 0), from);
        if(!fs::exists(to)) return;
        Bytes b = slurp(from);
        if(c.fmt == 0 && g.flip(2, 3)) for(std::size_t d = 0; d < c.nd(); ++d) putBE(b, 4 + 4 * d, std::min(c.chunks[c.nd() - 1 - d], c.shape[c.nd() - 1 - d]), 4), g.label("header");
        spit(to, b);
        const auto r = chunkRegion(c, id);
        std::vector<T> got;
        const bool clipped = r.shape != c.chunks;
        const bool ok = readTwice<T>(*ds, r, 1, got);
        // (an n5 edge chunk may be stored in full, and some chunk sizes coincide with the clipped ones)
        if(!more && !(c.fmt == 0 && clipped)) PBT_CHECK(!ok, "chunk " << show(id) << " holds fewer elements than it should, but was read");
        readChunk<T>(*ds, id);
        if(!clipped) {
            std::unique_ptr<T[]> m(new T[prod(c.chunks)]);
            const bool x = attempt([&]{ ds->readChunk(id, m.get()); });
            if(!more) PBT_CHECK(!x, "chunk " << show(id) << " holds fewer elements than it should, but readChunk returned");
            else if(c.codec == "raw") PBT_CHECK(!x, "raw chunk " << show(id) << " holds more elements than it should, but readChunk returned");
            g.nontrivial = true;
        }
        g.label(more ? "more" : "fewer"); g.label("fmt" + std::to_string(c.fmt)); g.label("codec:" + c.codec); g.label("returned", ok);
    });
}

PBT_MAIN

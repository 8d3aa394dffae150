// parts: zds
// P07: dataset metadata given through the C++ API (createDataset, DatasetMetadata) round-trips through the files
#include "zds.hpp"
#include "throwing_new.hpp"
#include "z5/factory.hxx"
#include "z5/metadata.hxx"

using namespace zds;
namespace fs = std::filesystem;
using nlohmann::json;

struct Type { const char * name; z5::types::Datatype t; int size; char kind; const char * z2; };
static const std::vector<Type> TYPES = {
    {"int8", z5::types::int8, 1, 'i', "|i1"}, {"int16", z5::types::int16, 2, 'i', "<i2"}, {"int32", z5::types::int32, 4, 'i', "<i4"}, {"int64", z5::types::int64, 8, 'i', "<i8"},
    {"uint8", z5::types::uint8, 1, 'u', "|u1"}, {"uint16", z5::types::uint16, 2, 'u', "<u2"}, {"uint32", z5::types::uint32, 4, 'u', "<u4"}, {"uint64", z5::types::uint64, 8, 'u', "<u8"},
    {"float32", z5::types::float32, 4, 'f', "<f4"}, {"float64", z5::types::float64, 8, 'f', "<f8"},
    {"complex64", z5::types::complex64, 8, 'c', "<c8"}, {"complex128", z5::types::complex128, 16, 'c', "<c16"}};

static std::string slurp(const fs::path & p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }

// what a dataset reports, as text
static std::string join(const Shape & id, const std::string & sep) { std::string s; for(std::size_t d = 0; d < id.size(); ++d) s += (d ? sep : "") + std::to_string(id[d]); return s; }

// the fill value as the bytes of the data type
static std::vector<char> fillBytes(const Type & t, double f) {
    std::vector<char> b(t.size, 0);
    auto put = [&](auto v) { std::memcpy(b.data(), &v, sizeof(v)); };
    const bool top = f >= 9.2e18;
    switch(t.t) {
        case z5::types::int8: put(int8_t(f)); break;
        case z5::types::int16: put(int16_t(f)); break;
        case z5::types::int32: put(int32_t(f)); break;
        case z5::types::int64: put(top ? std::numeric_limits<int64_t>::max() : int64_t(f)); break;
        case z5::types::uint8: put(uint8_t(f)); break;
        case z5::types::uint16: put(uint16_t(f)); break;
        case z5::types::uint32: put(uint32_t(f)); break;
        case z5::types::uint64: put(f >= 1.8e19 ? std::numeric_limits<uint64_t>::max() : uint64_t(f)); break;
        case z5::types::float32: put(float(f)); break;
        case z5::types::float64: put(f); break;
        case z5::types::complex64: put(float(f)); break;
        default: put(f);
    }
    return b;
}

static bool sameFill(const json & j, double f, const Type & t) {
    if(std::isnan(f)) return j == "NaN";
    if(std::isinf(f)) return j == (f > 0 ? "Infinity" : "-Infinity");
    if(t.kind == 'i' || t.kind == 'u') {
        if(!j.is_number_integer() && !j.is_number_unsigned()) return false;
        if(t.t == z5::types::int64 && f >= 9.2e18) return j == std::numeric_limits<int64_t>::max();
        if(t.t == z5::types::uint64 && f >= 1.8e19) return j == std::numeric_limits<uint64_t>::max();
        return f < 0 ? j.get<int64_t>() == int64_t(f) : j.get<uint64_t>() == uint64_t(f);
    }
    // (stored as double or rounded to the data type)
    return j.is_number() && (j.get<double>() == f || (t.size == 4 && float(j.get<double>()) == float(f)));
}

static Shape rev(Shape s) { std::reverse(s.begin(), s.end()); return s; }

struct Case { Cfg c; Type t; bool useMeta = false; };

static Case gen(pbt::Gen & g, bool valid = true) {
    GenOpt o;
    o.fills = false;
    Case k;
    k.c = genCfg(g, o);
    auto & c = k.c;
    if(c.dtype[0] == 'c') c.dtype = "uint8";
    k.useMeta = g.flip();
    k.t = TYPES[g.draw(c.fmt == 1 && k.useMeta ? 12 : 10)];
    c.dtype = k.t.name;
    if(g.flip(1, 4)) {
        const auto ax = g.draw(c.nd());
        c.shape[ax] = g.pick(std::vector<std::size_t>{1ull << 31, (1ull << 32) + 3, 1ull << 40, 1000000007ull});
    }
    if(c.fmt == 1) c.sep = g.flip() ? "/" : ".";
    if(c.fmt > 1) { c.enc = g.flip() ? "v2" : "default"; c.sep = g.flip() ? "/" : "."; }
    if(c.zarr()) {
        std::vector<double> f{0, 0, 1, 42, 127};
        const double inf = std::numeric_limits<double>::infinity();
        if(k.t.kind == 'i') { f.push_back(-1); f.push_back(-std::ldexp(1., 8 * k.t.size - 1)); if(k.t.size < 8) f.push_back(std::ldexp(1., 8 * k.t.size - 1) - 1); else f.push_back(std::ldexp(1., 63)); f.push_back(k.t.size == 8 ? 9007199254740992. : 3.); }
        if(k.t.kind == 'u') { if(k.t.size < 8) f.push_back(std::ldexp(1., 8 * k.t.size) - 1); else f.push_back(std::ldexp(1., 64)); if(k.t.size == 8) f.push_back(9223372036854775808.); }
        if(k.t.kind == 'f') { f.push_back(inf); f.push_back(-inf); f.push_back(std::numeric_limits<double>::quiet_NaN()); f.push_back(-2.5); f.push_back(0.1); f.push_back(1e-30); f.push_back(3e38); if(k.t.size == 8) { f.push_back(1e300); f.push_back(5e-324); } }
        c.fill = g.pick(f);
    }
    return k;
}

static z5::types::CompressionOptions options(const Cfg & c) {
    z5::types::CompressionOptions o;
    z5::types::jsonToCompressionType(c.opts, o);
    return o;
}

static std::unique_ptr<z5::Dataset> make(z5::filesystem::handle::File & f, const Case & k, const std::string & key) {
    const auto & c = k.c;
    const int zf = c.fmt > 1 ? 3 : 2;
    if(k.useMeta) {
        auto opts = options(c);
        const auto comp = z5::types::Compressors::stringToCompressor().at(c.codec);
        if(c.codec == "gzip") opts["useZlib"] = false;
        z5::types::defaultCompressionOptions(comp, opts, c.zarr());
        z5::DatasetMetadata m(k.t.t, c.shape, c.chunks, c.zarr(), comp, opts, c.fill, c.sep, zf, c.enc, c.shards);
        return z5::createDataset(f, key, m);
    }
    return z5::createDataset(f, key, c.dtype, c.shape, c.chunks, c.codec, options(c), c.fill, c.sep, zf, c.enc, c.shards);
}

static void report(const z5::Dataset & ds, const Case & k, const std::string & who) {
    const auto & c = k.c;
    PBT_CHECK(ds.shape() == c.shape, who << ": shape " << show(ds.shape()));
    PBT_CHECK(ds.defaultChunkShape() == c.chunks, who << ": chunks " << show(ds.defaultChunkShape()));
    PBT_CHECK(ds.chunksPerDimension() == c.grid() && ds.numberOfChunks() == prod(c.grid()), who << ": chunk grid " << show(ds.chunksPerDimension()));
    PBT_CHECK(ds.defaultChunkSize() == prod(c.chunks) && ds.size() == prod(c.shape), who << ": sizes");
    PBT_CHECK(ds.getDtype() == k.t.t, who << ": data type " << int(ds.getDtype()));
    PBT_CHECK(ds.isZarr() == c.zarr(), who << ": format");
    PBT_CHECK(ds.isSharded() == (c.fmt == 3) && ds.shardShape() == c.shards, who << ": shards " << show(ds.shardShape()));
    std::string name;
    ds.getCompressor(name);
    std::string want = c.codec;
    if(c.zarr() && want == "bzip2") want = "bz2";
    PBT_CHECK(name == want, who << ": compressor " << name << " instead of " << want);
    z5::types::CompressionOptions opts;
    ds.getCompressionOptions(opts);
    json j = json::object();
    z5::types::compressionTypeToJson(opts, j);
    for(auto & e : c.opts.items()) PBT_CHECK(j.contains(e.key()) && j[e.key()] == e.value(), who << ": compression options " << j.dump());
    std::vector<char> f(k.t.size + 8, 0);
    ds.getFillValue(f.data());
    const auto b = fillBytes(k.t, c.fill);
    const bool nan = std::isnan(c.fill);
    if(nan) {
        const bool isNan = k.t.size == 4 ? std::isnan(*reinterpret_cast<float *>(f.data())) : std::isnan(*reinterpret_cast<double *>(f.data()));
        PBT_CHECK(isNan, who << ": fill value");
    } else PBT_CHECK(std::memcmp(f.data(), b.data(), k.t.size) == 0, who << ": fill value");
}

// the stored metadata, read without z5
static void stored(const fs::path & p, const Case & k) {
    const auto & c = k.c;
    const fs::path file = p / (c.fmt == 0 ? "attributes.json" : c.fmt == 1 ? ".zarray" : "zarr.json");
    PBT_CHECK(fs::is_regular_file(file), "no metadata file " << file.filename());
    const json j = json::parse(slurp(file));
    auto eq = [&](const json & got, const json & want, const std::string & what) { PBT_CHECK(got == want, "stored " << what << " " << got.dump() << " instead of " << want.dump()); };
    if(c.fmt == 0) {
        eq(j.at("dimensions"), rev(c.shape), "dimensions");
        eq(j.at("blockSize"), rev(c.chunks), "blockSize");
        eq(j.at("dataType"), c.dtype, "dataType");
        eq(j.at("compression").at("type"), c.codec, "compression");
        const auto & o = j.at("compression");
        if(c.opts.contains("level")) {
            const std::string key = c.codec == "bzip2" ? "blockSize" : c.codec == "xz" ? "preset" : c.codec == "lz4" ? "" : c.codec == "blosc" ? "clevel" : "level";
            if(!key.empty()) eq(o.at(key), c.opts["level"], key);
        }
        return;
    }
    eq(j.at("zarr_format"), c.fmt == 1 ? 2 : 3, "zarr_format");
    eq(j.at("shape"), c.shape, "shape");
    PBT_CHECK(sameFill(j.at("fill_value"), c.fill, k.t), "stored fill value " << j.at("fill_value").dump());
    json comp;
    if(c.fmt == 1) {
        eq(j.at("chunks"), c.chunks, "chunks");
        eq(j.at("dtype"), k.t.z2, "dtype");
        eq(j.at("order"), "C", "order");
        eq(j.at("filters"), nullptr, "filters");
        eq(j.value("dimension_separator", "."), c.sep, "dimension_separator");
        comp = j.at("compressor");
        if(c.codec == "raw") { eq(comp, nullptr, "compressor"); return; }
        eq(comp.at("id"), c.codec == "bzip2" ? "bz2" : c.codec, "compressor");
    } else {
        eq(j.at("node_type"), "array", "node_type");
        eq(j.at("data_type"), c.dtype, "data_type");
        eq(j.at("chunk_grid").at("name"), "regular", "chunk_grid");
        eq(j.at("chunk_grid").at("configuration").at("chunk_shape"), c.fmt == 3 ? c.shards : c.chunks, "chunk_shape");
        eq(j.at("chunk_key_encoding").at("name"), c.enc, "chunk_key_encoding");
        const auto & cke = j.at("chunk_key_encoding");
        const std::string sep = cke.contains("configuration") && cke["configuration"].contains("separator") ? cke["configuration"]["separator"].get<std::string>() : c.enc == "v2" ? "." : "/";
        PBT_CHECK(sep == c.sep, "stored separator '" << sep << "'");
        json codecs = j.at("codecs");
        if(c.fmt == 3) {
            PBT_CHECK(codecs.size() == 1 && codecs[0].at("name") == "sharding_indexed", "stored codecs " << codecs.dump());
            eq(codecs[0].at("configuration").at("chunk_shape"), c.chunks, "inner chunk shape");
            const auto inner = codecs[0]["configuration"].at("codecs");
            codecs = inner;
        }
        PBT_CHECK(codecs.size() == (c.codec == "raw" ? 1u : 2u) && codecs[0].at("name") == "bytes", "stored codecs " << codecs.dump());
        if(c.codec == "raw") return;
        eq(codecs[1].at("name"), c.codec, "codec");
        comp = codecs[1].at("configuration");
    }
    if(c.codec == "blosc") {
        if(c.opts.contains("level")) eq(comp.at("clevel"), c.opts["level"], "clevel");
        if(c.opts.contains("codec")) eq(comp.at("cname"), c.opts["codec"], "cname");
        if(c.opts.contains("shuffle")) {
            static const char * names[] = {"noshuffle", "shuffle", "bitshuffle"};
            if(comp.at("shuffle").is_string()) eq(comp["shuffle"], names[c.opts["shuffle"].get<int>()], "shuffle");
            else eq(comp["shuffle"], c.opts["shuffle"], "shuffle");
        }
    } else if(c.opts.contains("level")) eq(comp.at("level"), c.opts["level"], "level");
}

static fs::path chunkFile(const fs::path & ds, const Cfg & c, Shape id) {
    if(c.fmt == 3) for(std::size_t d = 0; d < c.nd(); ++d) id[d] = id[d] * c.chunks[d] / c.shards[d];
    if(c.fmt == 0) return ds / join(rev(id), "/");
    if(c.fmt == 1) return ds / join(id, c.sep);
    return c.enc == "v2" ? ds / join(id, c.sep) : ds / ("c" + c.sep + join(id, c.sep));
}

// are the first bytes those of the fill value in some type?
template<class T>
bool isFill(const std::vector<char> & b, const double fill) {
    const bool fits = std::is_floating_point<T>::value || (fill >= -9.2e18 && fill <= 9.2e18);
    const T f = !fits ? T(0) : std::is_same<T, uint64_t>::value && fill > 0 ? T(uint64_t(fill)) : std::is_floating_point<T>::value ? T(fill) : T(int64_t(fill));
    return fits && std::memcmp(b.data(), &f, std::min(b.size(), sizeof(T))) == 0;
}
bool likeFill(const std::vector<char> & b, const double fill) {
    return isFill<int64_t>(b, fill) || isFill<uint64_t>(b, fill) || isFill<double>(b, fill) || (b.size() == 4 && isFill<float>(b, fill));
}

PBT_TEST(api) {
    const auto k = gen(g);
    const auto & c = k.c;
    const std::string path = g.scratch + "/x";
    fs::create_directories(g.scratch);
    z5::filesystem::handle::File f(path);
    z5::createFile(f, c.zarr(), c.fmt > 1 ? 3 : 2);
    const std::string key = g.pick(std::vector<std::string>{"data", "data", "group/data"});
    if(key != "data") z5::createGroup(f, "group", c.fmt > 1 ? 3 : 2);
    g.desc << c.str() << (k.useMeta ? " (DatasetMetadata) " : " ") << key;
    const fs::path dir = path + "/" + key;
    auto ds = make(f, k, key);
    report(*ds, k, "created");
    stored(dir, k);
    const fs::path file = dir / (c.fmt == 0 ? "attributes.json" : c.fmt == 1 ? ".zarray" : "zarr.json");
    const std::string bytes = slurp(file);

    // a chunk lies where the metadata say, and is found again
    std::vector<std::pair<Shape, std::vector<char>>> chunks;
    const int n = g.range(1, 3);
    for(int i = 0; i < n; ++i) {
        const auto id = genChunk(g, c);
        // (n5 edge chunks are clipped; a buffer of the full size is enough for all)
        std::vector<char> b(prod(c.chunks) * k.t.size);
        const int v = g.range(1, 60);
        for(std::size_t x = 0; x < b.size(); ++x) b[x] = char(v + x % 3);
        // (a chunk of one element that is the fill value would not be stored)
        if(prod(c.chunks) == 1 && likeFill(b, c.fill)) b[0] ^= 64;
        const fs::path cf = chunkFile(dir, c, id);
        for(std::size_t x = 0; x < chunks.size(); ++x) if(chunks[x].first == id) { chunks.erase(chunks.begin() + x); break; }
        ds->writeChunk(id, b.data());
        PBT_CHECK(fs::is_regular_file(cf), "chunk " << show(id) << " is not stored as " << fs::relative(cf, dir));
        if(!c.zarr()) { std::size_t s = k.t.size; const auto r = chunkRegion(c, id); s *= prod(r.shape); b.resize(s); }
        chunks.emplace_back(id, b);
    }
    PBT_CHECK(slurp(file) == bytes, "writing data changed the metadata");

    for(const char * mode : {"r", "r+", "a"}) {
        auto d2 = open(path, mode, key);
        report(*d2, k, std::string("re-opened ") + mode);
        for(auto & ch : chunks) {
            std::vector<char> out(prod(c.chunks) * k.t.size);
            PBT_CHECK(d2->chunkExists(ch.first), "re-opened " << mode << ": chunk " << show(ch.first) << " is not found");
            d2->readChunk(ch.first, out.data());
            PBT_CHECK(std::memcmp(out.data(), ch.second.data(), ch.second.size()) == 0, "re-opened " << mode << ": chunk " << show(ch.first) << " differs");
        }
    }
    // the metadata object read from the file is the one that was given, and gives the same document
    z5::DatasetMetadata m;
    z5::filesystem::handle::Dataset h(f, key);
    z5::filesystem::readMetadata(h, m);
    PBT_CHECK(m.isZarr == c.zarr() && m.dtype == k.t.t && m.shape == c.shape && m.chunkShape == c.chunks && m.shardShape == c.shards, "readMetadata: shapes or types");
    PBT_CHECK(m.fillValue == c.fill || (std::isnan(m.fillValue) && std::isnan(c.fill)) || (k.t.size == 4 && float(m.fillValue) == float(c.fill)), "readMetadata: fill value " << m.fillValue);
    if(c.zarr()) PBT_CHECK(m.zarrDelimiter == c.sep && m.zarrFormat == (c.fmt > 1 ? 3 : 2), "readMetadata: separator '" << m.zarrDelimiter << "' format " << m.zarrFormat);
    if(c.fmt > 1) PBT_CHECK(m.chunkKeyEncoding == c.enc, "readMetadata: chunk key encoding " << m.chunkKeyEncoding);
    json doc;
    m.toJson(doc);
    PBT_CHECK(doc == json::parse(bytes), "readMetadata followed by toJson gives " << doc.dump() << " for " << json::parse(bytes).dump());
    // ... and creates the same dataset again
    auto again = z5::createDataset(f, "again", m);
    report(*again, k, "created from readMetadata");
    PBT_CHECK(json::parse(slurp(fs::path(path) / "again" / file.filename())) == json::parse(bytes), "a dataset created from readMetadata has other metadata");
    PBT_CHECK(slurp(file) == bytes, "re-opening changed the metadata");
    g.nontrivial = !c.opts.empty() || c.fill != 0 || c.fmt == 3 || key != "data" || (c.fmt > 1 && (c.enc == "v2") != (c.sep == "."));
    g.label("fmt" + std::to_string(c.fmt)); g.label(c.dtype); g.label(c.codec); g.label("useMeta", k.useMeta);
    if(c.fmt > 1) g.label("key layout " + c.enc + c.sep);
}

// combinations that are not valid leave nothing behind
PBT_TEST(api_invalid) {
    auto k = gen(g);
    auto & c = k.c;
    const std::string path = g.scratch + "/x";
    fs::create_directories(g.scratch);
    z5::filesystem::handle::File f(path);
    z5::createFile(f, c.zarr(), c.fmt > 1 ? 3 : 2);
    Case b = k;
    std::string what;
    switch(g.draw(5)) {
        case 0:
            if(c.fmt == 1) { b.c.codec = "xz"; b.c.opts = json::object(); what = "xz in zarr"; }
            else { b.t = TYPES[10 + g.draw(2)]; b.c.dtype = b.t.name; b.useMeta = true; b.c.fill = 0; what = "complex type"; }
            break;
        case 1:
            b.c.opts = json::object();
            if(c.fmt == 0) { what = "no codec"; b.c.codec = g.pick(std::vector<std::string>{"", "bz2", "snappy"}); b.useMeta = false; }
            else if(c.fmt == 1) { b.c.codec = "xz"; what = "xz in zarr"; }
            else { b.c.codec = g.pick(std::vector<std::string>{"xz", "bzip2", "lz4"}); what = b.c.codec + " in zarr v3"; }
            break;
        case 2:
            if(c.zarr()) { b.c.sep = g.pick(std::vector<std::string>{"", "-", "./", "//"}); what = "separator"; }
            else { b.c.chunks.push_back(1); what = "dimensions"; }
            break;
        case 3:
            if(c.zarr() && (k.t.kind == 'i' || k.t.kind == 'u')) {
                std::vector<double> v{std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), 1e30, -1e30};
                if(k.t.kind == 'u') v.push_back(-1);
                if(k.t.size < 8) v.push_back(std::ldexp(1., 8 * k.t.size));
                b.c.fill = g.pick(v); what = "fill value";
            } else { b.c.chunks[g.draw(c.nd())] = 0; what = "empty chunk"; }
            break;
        default:
            if(c.fmt == 3) { const auto ax = g.draw(c.nd()); b.c.shards[ax] += c.chunks[ax] > 1 ? 1 + g.draw(c.chunks[ax] - 1) : 0; if(b.c.shards[ax] == c.shards[ax]) b.c.shards.pop_back(), b.c.shards.push_back(0); what = "shards"; }
            else { b.c.chunks.pop_back(); what = "dimensions"; }
    }
    g.desc << c.str() << "\ninvalid " << what << ": " << b.c.str() << (b.useMeta ? " (DatasetMetadata)" : "");
    bool threw = false;
    try { make(f, b, "data"); } catch(const pbt::Fail &) { throw; } catch(const std::exception &) { threw = true; }
    PBT_CHECK(threw, "invalid metadata (" << what << ") were accepted");
    PBT_CHECK(!fs::exists(path + "/data"), "a refused dataset was left behind (" << what << ")");
    make(f, k, "data");
    report(*open(path, "r", "data"), k, "created after a refused call");
    g.nontrivial = true;
    g.label(what); g.label("fmt" + std::to_string(c.fmt));
}

PBT_MAIN

#include "zds.hpp"
#include "z5/factory.hxx"

namespace zds {

namespace fs = std::filesystem;

std::string show(const Shape & s) { std::ostringstream o; o << "("; for(std::size_t i = 0; i < s.size(); ++i) o << (i ? "," : "") << s[i]; o << ")"; return o.str(); }

std::string Cfg::str() const {
    static const char * names[] = {"n5", "zarr2", "zarr3", "zarr3-sharded"};
    std::ostringstream o;
    o << names[fmt] << " shape " << show(shape) << " chunks " << show(chunks);
    if(fmt == 3) o << " shards " << show(shards);
    o << " " << dtype << " " << codec << opts.dump() << " fill " << fill << " sep " << sep << " enc " << enc;
    return o.str();
}

Cfg genCfg(pbt::Gen & g, const GenOpt & o) {
    Cfg c;
    c.fmt = g.pick(o.fmts);
    const int nd = g.range(1, o.maxDim);
    for(int d = 0; d < nd; ++d) {
        c.shape.push_back(g.range(1, o.maxExtent[nd]));
        c.chunks.push_back(g.flip(1, 5) ? c.shape[d] : g.range(1, std::max<int64_t>(1, (c.shape[d] + 1) / 2)));
    }
    while(prod(c.grid()) > o.maxChunks) {
        const auto gr = c.grid();
        const auto k = std::max_element(gr.begin(), gr.end()) - gr.begin();
        c.chunks[k] = std::min<std::size_t>(c.shape[k], 2 * c.chunks[k]);
    }
    if(c.fmt == 3) for(int d = 0; d < nd; ++d) c.shards.push_back(c.chunks[d] * g.range(1, 4));
    c.dtype = g.pick(o.dtypes);
    const bool isComplex = c.dtype[0] == 'c';
    if(isComplex) c.fmt = 1, c.shards.clear();
    if(o.codecs) {
        static const std::vector<std::vector<std::string>> codecs = {
            {"raw", "gzip", "bzip2", "xz", "lz4", "blosc", "zstd"}, {"raw", "blosc", "zlib", "gzip", "bzip2", "zstd", "lz4"},
            {"raw", "blosc", "gzip", "zstd"}, {"raw", "blosc", "gzip", "zstd"}};
        c.codec = g.pick(codecs[c.fmt]);
        if(c.fmt == 1 && c.codec == "lz4") c.codec = "zstd";
        if(c.codec != "raw" && g.flip(1, 3)) {
            c.opts["level"] = c.codec == "xz" ? g.range(0, 3) : g.range(1, 9);
            if(c.codec == "blosc") { c.opts["codec"] = g.pick(std::vector<std::string>{"lz4", "blosclz", "lz4hc", "zlib", "zstd"}); c.opts["shuffle"] = int(g.range(0, 2)); }
        }
    }
    if(o.fills && c.fmt > 0 && !isComplex) {
        std::vector<double> f{0, 0, 1, 42, 100};
        if(c.dtype[0] == 'f') f.push_back(std::numeric_limits<double>::quiet_NaN()), f.push_back(-2.5), f.push_back(std::numeric_limits<double>::infinity());
        if(c.dtype[0] == 'i') f.push_back(-1);
        c.fill = g.pick(f);
    }
    if(c.fmt == 1) c.sep = g.flip(1, 3) ? "/" : ".";
    else if(c.fmt > 1) { c.enc = g.flip(1, 3) ? "v2" : "default"; c.sep = c.enc == "v2" ? "." : "/"; }
    return c;
}

std::unique_ptr<z5::Dataset> create(const Cfg & c, const std::string & path) {
    fs::create_directories(fs::path(path).parent_path());
    z5::filesystem::handle::File f(path);
    const int zf = c.fmt > 1 ? 3 : 2;
    z5::createFile(f, c.zarr(), zf);
    if(c.dtype[0] == 'c') {
        z5::types::CompressionOptions opts;
        z5::types::jsonToCompressionType(c.opts, opts);
        const auto comp = z5::types::Compressors::stringToCompressor().at(c.codec);
        z5::types::defaultCompressionOptions(comp, opts, c.codec != "gzip");
        z5::DatasetMetadata m(c.dtype == "complex64" ? z5::types::complex64 : z5::types::complex128, c.shape, c.chunks, true, comp, opts, c.fill, c.sep, zf);
        return z5::createDataset(f, "data", m);
    }
    return z5::createDataset(f, "data", c.dtype, c.shape, c.chunks, c.codec, c.opts, c.fill, c.sep, zf, c.enc, c.shards);
}

std::unique_ptr<z5::Dataset> open(const std::string & path, const std::string & mode, const std::string & name) {
    z5::filesystem::handle::File f(path, z5::FileMode(mode == "r" ? z5::FileMode::r : mode == "r+" ? z5::FileMode::r_p : z5::FileMode::a));
    return z5::openDataset(f, name);
}

Layout genLayout(pbt::Gen & g, const Shape & shape, bool overlap) {
    const std::size_t nd = shape.size();
    Layout l;
    l.strides.assign(nd, 1);
    if(!g.flip(2, 3)) {  // C order, exact
        l.strides = z5::multiarray::cOrderStrides(shape);
        l.size = prod(shape);
        return l;
    }
    l.plain = false;
    std::vector<std::size_t> perm(nd);
    for(std::size_t d = 0; d < nd; ++d) perm[d] = nd - 1 - d;
    if(g.flip()) for(std::size_t d = nd; d > 1; --d) std::swap(perm[d - 1], perm[g.draw(d)]);
    const bool over = overlap && g.flip(1, 5);
    std::size_t cur = g.flip(1, 3) ? g.range(2, 4) : 1;   // step of the fastest axis
    for(auto d : perm) {
        l.strides[d] = cur;
        cur = over ? std::max<std::size_t>(1, cur * shape[d] / 2) : cur * shape[d] + (g.flip(1, 3) ? g.draw(4) : 0);
    }
    l.offset = g.flip(1, 2) ? g.draw(6) : 0;
    std::size_t last = l.offset;
    for(std::size_t d = 0; d < nd; ++d) last += (shape[d] - 1) * l.strides[d];
    l.size = last + 1;
    return l;
}

Region genRegion(pbt::Gen & g, const Shape & shape) {
    Region r;
    const bool full = g.flip(1, 6);
    for(auto s : shape) {
        if(full) { r.begin.push_back(0); r.shape.push_back(s); continue; }
        r.begin.push_back(g.draw(s));
        r.shape.push_back(1 + g.draw(s - r.begin.back()));
    }
    return r;
}

Shape genChunk(pbt::Gen & g, const Cfg & c) {
    Shape id;
    const bool last = g.flip(1, 3);
    for(auto n : c.grid()) id.push_back(last && g.flip(2, 3) ? n - 1 : g.draw(n));
    return id;
}

}  // namespace zds

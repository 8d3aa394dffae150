// parts: zds
// P15: invalid requests through the C++ API are refused, touch nothing, and leave the files alone
#include "zds.hpp"
#include "throwing_new.hpp"
#include "z5/factory.hxx"
#include "z5/util/for_each.hxx"
#include <atomic>

using namespace zds;
namespace fs = std::filesystem;
namespace ma = z5::multiarray;

static std::map<std::string, std::string> snapshot(const fs::path & root) {
    std::map<std::string, std::string> m;
    for(auto & e : fs::recursive_directory_iterator(root)) {
        std::string v = "/";
        if(e.is_regular_file()) { std::ifstream f(e.path(), std::ios::binary); v.assign(std::istreambuf_iterator<char>(f), {}); }
        m[fs::relative(e.path(), root).string()] = v;
    }
    return m;
}

static std::size_t big(pbt::Gen & g) {
    static const std::vector<std::size_t> v = {1, 2, 3, 5, 100, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffff0ull, 0xffffffffffffffffull};
    return g.pick(v);
}

template<class F> static void refused(pbt::Gen & g, const std::string & what, F && f) {
    bool threw = false;
    try { f(); }
    catch(const pbt::Fail &) { throw; }
    catch(const std::exception & e) { threw = true; }
    PBT_CHECK(threw, what << " was accepted");
}

// one invalid region; the view belongs to the data type U and has the shape in r
template<class U> static void region(pbt::Gen & g, z5::Dataset & ds, const Region & r, int how, int threads) {
    const std::size_t n = prod(r.shape) < 100000 ? prod(r.shape) : 1;
    Shape strides = z5::multiarray::cOrderStrides(r.shape);
    std::unique_ptr<U[]> mem(new U[std::max<std::size_t>(1, n)]);
    for(std::size_t i = 0; i < n; ++i) mem[i] = value<U>(i * 5 + 3);
    Shape begin(r.begin);
    begin.resize(std::max(begin.size(), r.shape.size()), 0);
    const bool small = prod(r.shape) == n;
    if(how == 0) {
        refused(g, "write", [&]{ ma::writeSubarray<U>(ds, z5::multiarray::ConstArrayView<U>{mem.get(), r.shape, strides}, begin.begin(), threads); });
    } else if(how == 1) {
        refused(g, "read", [&]{ ma::readSubarray<U>(ds, z5::multiarray::ArrayView<U>{mem.get(), r.shape, strides}, begin.begin(), threads); });
        if(small) for(std::size_t i = 0; i < n; ++i) { const U c = value<U>(i * 5 + 3); PBT_CHECK(std::memcmp(&c, &mem[i], sizeof(U)) == 0, "a refused read changed element " << i << " of its destination"); }
    }
}

template<class T> static void run(pbt::Gen & g, const Cfg & c) {
    const std::string path = g.scratch + "/x";
    auto ds = create(c, path);
    Model<T> ref(c);
    {
        Maker<T> mk(g, ref.fill);
        std::vector<T> all(prod(c.shape));
        for(std::size_t i = 0; i < all.size(); ++i) ref.data[i] = all[i] = mk();
        ma::writeSubarray<T>(*ds, ma::makeView(static_cast<const T *>(all.data()), c.shape), Shape(c.nd(), 0).begin(), 1);
    }
    const auto before = snapshot(path);
    const int n = g.range(2, 10);
    for(int i = 0; i < n; ++i) {
        const int k = g.draw(9);
        const int threads = g.flip(1, 3) ? g.range(2, 4) : 1;
        auto r = genRegion(g, c.shape);
        const int ax = g.draw(c.nd());
        std::ostringstream o;
        if(k <= 3) {
            const int f = g.draw(6);
            if(f == 0) { r.begin[ax] = c.shape[ax] - r.shape[ax] + big(g); o << "offset beyond"; }
            else if(f == 1) { r.shape[ax] = c.shape[ax] - r.begin[ax] + big(g); o << "extent beyond"; if(r.shape[ax] <= c.shape[ax] - r.begin[ax]) r.shape[ax] = c.shape[ax] - r.begin[ax] + 1; }
            else if(f == 2) { r.shape[ax] = 0; o << "empty axis"; }
            else if(f == 3) { r.begin[ax] = std::size_t(0) - g.range(1, 5); o << "offset wraps"; }
            else if(f == 4) { if(c.nd() > 1 && g.flip()) { r.begin.pop_back(); r.shape.pop_back(); } else { r.begin.push_back(0); r.shape.push_back(1); } o << "dimensions"; }
            else o << "type";
            if(f == 0 && r.begin[ax] <= c.shape[ax] - r.shape[ax]) r.begin[ax] = c.shape[ax] - r.shape[ax] + 1;
            o << " " << show(r.begin) << show(r.shape);
            const int how = k == 3 ? 2 : k % 2;
            g.desc << "\n" << (how == 0 ? "write " : how == 1 ? "read " : "scalar ") << o.str() << " threads " << threads;
            if(how == 2) {
                if(r.begin.size() != r.shape.size()) continue;
                if(f == 4) continue;   // (iterators: the dimension is the one of the dataset)
                if(f == 5) { if constexpr(std::is_same_v<T, uint16_t>) continue; else refused(g, "scalar", [&]{ ma::writeScalar<uint16_t>(*ds, r.begin.begin(), r.shape.begin(), uint16_t(3), threads); }); }
                else refused(g, "scalar", [&]{ ma::writeScalar<T>(*ds, r.begin.begin(), r.shape.begin(), value<T>(3), threads); });
            } else if(f == 5) {
                // another type, of the same size or not
                switch(g.draw(6)) {
                    case 0: if constexpr(!std::is_same_v<T, uint8_t>) region<uint8_t>(g, *ds, r, how, threads); break;
                    case 1: if constexpr(!std::is_same_v<T, int8_t>) region<int8_t>(g, *ds, r, how, threads); break;
                    case 2: if constexpr(!std::is_same_v<T, int32_t>) region<int32_t>(g, *ds, r, how, threads); break;
                    case 3: if constexpr(!std::is_same_v<T, uint64_t>) region<uint64_t>(g, *ds, r, how, threads); break;
                    case 4: if constexpr(!std::is_same_v<T, float>) region<float>(g, *ds, r, how, threads); break;
                    default: if constexpr(!std::is_same_v<T, double>) region<double>(g, *ds, r, how, threads);
                }
            } else region<T>(g, *ds, r, how, threads);
        } else if(k <= 6) {
            auto id = genChunk(g, c);
            const auto grid = c.grid();
            const int f = g.draw(4);
            if(f == 0) id[ax] = grid[ax] + (g.flip() ? 0 : big(g) - 1);
            else if(f == 1) id[ax] = std::size_t(0) - g.range(1, 5);
            else if(f == 2) id.push_back(0);
            else if(c.nd() > 1) id.pop_back();
            else id.push_back(1);
            if(f == 0 && id[ax] < grid[ax]) id[ax] = grid[ax];
            g.desc << "\nchunk " << show(id) << " op " << k;
            std::vector<T> m(prod(c.chunks), value<T>(9));
            const auto keep = m;
            // (probing, reading and removing what cannot exist may report absence)
            auto lenient = [&](auto && fn) { try { fn(); } catch(const pbt::Fail &) { throw; } catch(const std::exception &) {} };
            if(k == 4) refused(g, "writeChunk", [&]{ ds->writeChunk(id, m.data()); });
            else if(k == 5) { refused(g, "readChunk", [&]{ ds->readChunk(id, m.data()); }); PBT_CHECK(std::memcmp(m.data(), keep.data(), m.size() * sizeof(T)) == 0, "a refused readChunk changed its destination"); }
            else {
                bool there = false;
                lenient([&]{ there = ds->chunkExists(id); });
                PBT_CHECK(!there, "chunk " << show(id) << " exists");
                lenient([&]{ ds->removeChunk(id); });
                std::vector<char> raw;
                lenient([&]{ ds->readRawChunk(id, raw); });
                PBT_CHECK(raw.empty(), "chunk " << show(id) << " has raw data");
                refused(g, "getChunkSize", [&]{ ds->getChunkSize(id); });
                refused(g, "getChunkShape", [&]{ Shape s; ds->getChunkShape(id, s); });
            }
        } else if(k == 7) {
            if(!c.zarr()) continue;
            const auto id = genChunk(g, c);
            std::vector<T> m(prod(c.chunks) + 3, value<T>(9));
            g.desc << "\nvarlen chunk in zarr";
            refused(g, "a varlen chunk in zarr", [&]{ ds->writeChunk(id, m.data(), true, m.size() - g.draw(4)); });
        } else {
            // a valid request still works
            const auto l = genLayout(g, r.shape);
            Buf<T> b(l, r.shape);
            ma::readSubarray<T>(*ds, b.view(), r.begin.begin(), threads);
            eachPos(r.shape, [&](const Shape & p) { PBT_CHECK(same(b(p), ref(add(r.begin, p))), "element " << show(add(r.begin, p))); });
            b.checkOutside("read");
            g.label("control");
        }
        const auto now = snapshot(path);
        PBT_CHECK(now == before, "a refused request changed the files");
    }
    g.nontrivial = true;
    g.label("fmt" + std::to_string(c.fmt)); g.label("type:" + c.dtype);
}

PBT_TEST(views) {
    GenOpt o;
    o.maxChunks = 40;
    o.maxExtent = {0, 20, 9, 6, 4, 4};
    const auto c = genCfg(g, o);
    g.desc << c.str();
    dispatch(c.dtype, [&](auto t) { run<decltype(t)>(g, c); });
}

// createDataset with one invalid argument
PBT_TEST(creation) {
    GenOpt o;
    auto c = genCfg(g, o);
    if(c.dtype[0] == 'c') c.dtype = "uint8";
    const std::string path = g.scratch + "/x";
    z5::filesystem::handle::File f(path);
    const int zf = c.fmt > 1 ? 3 : 2;
    z5::createFile(f, c.zarr(), zf);
    if(g.flip(1, 3)) z5::createDataset(f, "other", "uint8", {4}, {2}, "raw", nlohmann::json::object(), 0, ".", zf);
    g.desc << c.str();
    const auto before = snapshot(path);
    auto make = [&](const Cfg & c, const std::string & name = "data") { z5::createDataset(f, name, c.dtype, c.shape, c.chunks, c.codec, c.opts, c.fill, c.sep, zf, c.enc, c.shards); };
    Cfg b = c;
    const int ax = g.draw(c.nd());
    std::string what;
    switch(g.draw(9)) {
        case 0: b.chunks.insert(b.chunks.begin(), 1); what = "a leading chunk extent"; break;
        case 1: b.chunks[ax] = 0; what = "an empty chunk"; break;
        case 2: b.chunks.push_back(1); what = "too many chunk extents"; break;
        case 3: b.shape.push_back(3); what = "too many extents"; break;
        case 4: b.dtype = g.pick(std::vector<std::string>{"", "uint", "uint128", "string", "object", "float16", "bool", "UINT8", " uint8", "<f4"}); what = "data type '" + b.dtype + "'"; break;
        case 5: b.codec = g.pick(std::vector<std::string>{"", "gzipp", "GZIP", "snappy", "none", "blosc2"}); what = "codec '" + b.codec + "'"; break;
        case 6: if(c.fmt != 3) { b.shape.clear(); b.chunks.clear(); what = "no dimensions"; } else { b.shards[ax] = 0; what = "an empty shard"; } break;
        case 7: if(c.fmt == 3) { b.shards[ax] = c.chunks[ax] * 2 + 1; if(c.chunks[ax] == 1) b.shards.push_back(1); what = "a shard that is no multiple of the chunk"; } else { b.chunks.clear(); what = "no chunk shape"; } break;
        default:
            if(c.fmt == 1) { b.sep = g.pick(std::vector<std::string>{"", "x", "..", "//"}); what = "separator '" + b.sep + "'"; }
            else if(c.fmt > 1) { b.enc = g.pick(std::vector<std::string>{"", "v3", "Default"}); what = "chunk key encoding '" + b.enc + "'"; }
            else { b.shards = b.chunks; what = "shards in n5"; }
    }
    g.desc << "\n" << what;
    refused(g, what, [&]{ make(b); });
    PBT_CHECK(snapshot(path) == before, what << ": the refused creation changed the files");
    make(c);
    PBT_CHECK(z5::openDataset(f, "data")->shape() == c.shape, "the valid creation afterwards");
    const auto made = snapshot(path);
    refused(g, "an existing name", [&]{ make(c); });
    PBT_CHECK(snapshot(path) == made, "creating an existing dataset changed the files");
    g.nontrivial = true;
    g.label(what); g.label("fmt" + std::to_string(c.fmt));
}

// iteration over chunks or blocks with a region or block shape that does not fit the dataset
PBT_TEST(iterate) {
    GenOpt o;
    o.maxChunks = 40;
    o.maxExtent = {0, 20, 9, 6, 4, 4};
    const auto c = genCfg(g, o);
    g.desc << c.str();
    const std::string path = g.scratch + "/x";
    auto ds = create(c, path);
    const auto before = snapshot(path);
    namespace zu = z5::util;
    const int n = g.range(1, 8);
    for(int i = 0; i < n; ++i) {
        auto r = genRegion(g, c.shape);
        Shape begin(r.begin), end(r.begin), block(genRegion(g, c.shape).shape);
        for(unsigned d = 0; d < c.nd(); ++d) end[d] += r.shape[d];
        const int ax = g.draw(c.nd());
        const bool blocks = g.flip();
        const int th = g.flip(1, 3) ? g.range(2, 4) : 1;
        bool roi = true;
        std::string what;
        switch(g.draw(blocks ? 9 : 7)) {
            case 0: end[ax] = begin[ax]; what = "empty region"; break;
            case 1: begin[ax] = end[ax] = 0; what = "empty region at 0"; break;
            case 2: begin[ax] += 1 + g.draw(3); end[ax] = begin[ax] - 1; what = "negative extent"; break;
            case 3: end[ax] = c.shape[ax] + std::min<std::size_t>(big(g), std::size_t(-1) - c.shape[ax]); what = "region beyond the array"; break;
            case 4: begin[ax] = c.shape[ax]; end[ax] = c.shape[ax] + g.range(1, 3); what = "region behind the array"; break;
            case 5: begin.push_back(0); end.push_back(1); if(g.flip()) end.pop_back(); what = "dimensions"; break;
            case 6: end.push_back(1); if(g.flip()) { begin.pop_back(); end.pop_back(); end.pop_back(); } what = "dimensions"; break;
            case 7: roi = g.flip(); block[ax] = 0; what = "empty block"; break;
            default: roi = g.flip(); block.push_back(1); if(c.nd() > 1 && g.flip()) { block.pop_back(); block.pop_back(); } what = "block dimensions";
        }
        g.desc << "\n" << what << (blocks ? " blocks" + show(block) : std::string(" chunks")) << " in " << show(begin) << show(end) << " threads " << th;
        std::atomic<std::size_t> calls(0);
        auto onBlock = [&](int, const z5::Dataset &, const Shape &, const Shape &) { ++calls; };
        auto onChunk = [&](int, const z5::Dataset &, const Shape &) { ++calls; };
        // (an empty region may also be no work at all)
        auto attempt = [&]{
            if(!blocks) zu::parallel_for_each_chunk_in_roi(*ds, begin, end, th, onChunk);
            else if(roi) zu::parallel_for_each_block_in_roi(*ds, block, begin, end, th, onBlock);
            else zu::parallel_for_each_block(*ds, block, th, onBlock);
        };
        if(what == "empty region" || what == "empty region at 0") { try { attempt(); } catch(const std::exception &) {} }
        else refused(g, what, attempt);
        PBT_CHECK(calls == 0, "a refused iteration called its function " << calls << " times");
        g.label(what);
    }
    PBT_CHECK(snapshot(path) == before, "a refused iteration changed the files");
    g.nontrivial = true;
}

PBT_MAIN

// parts: zds
// P11: rights granted by the file mode through the C++ interface
#define ZDS_NO_COMPLEX
#include <filesystem>
#include <fstream>
#include <map>
#include "zds.hpp"
#include "z5/attributes.hxx"
#include "z5/factory.hxx"
#include "z5/util/functions.hxx"

using namespace zds;
namespace fs = std::filesystem;
namespace ma = z5::multiarray;
namespace zh = z5::filesystem::handle;
namespace zu = z5::util;
using json = nlohmann::json;

static std::map<std::string, std::string> snapshot(const std::string & root) {
    std::map<std::string, std::string> out;
    if(!fs::exists(root)) return out;
    for(const auto & p : fs::recursive_directory_iterator(root)) {
        const auto name = p.path().lexically_relative(root).string();
        if(p.is_directory()) { out[name + "/"] = ""; continue; }
        std::ifstream f(p.path(), std::ios::binary);
        out[name] = std::string(std::istreambuf_iterator<char>(f), {});
    }
    return out;
}

static std::string diff(const std::map<std::string, std::string> & a, const std::map<std::string, std::string> & b) {
    for(const auto & [k, v] : a) { auto it = b.find(k); if(it == b.end()) return k + " is gone"; if(it->second != v) return k + " changed"; }
    for(const auto & [k, v] : b) if(!a.count(k)) return k + " is new";
    return "";
}

using Mode = z5::FileMode;
static const std::vector<std::pair<std::string, Mode::modes>> modes{{"r", Mode::r}, {"r", Mode::r}, {"r", Mode::r}, {"r+", Mode::r_p}, {"a", Mode::a}, {"w-", Mode::w_m}, {"w", Mode::w}};

// A container with a dataset ("data"), groups ("g", "g/h"), a dataset in "g/h" and attributes
template<class T> struct World {
    Cfg c; std::string root; Model<T> ref; Shape konst;
    int zf() const { return c.fmt >= 2 ? 3 : 2; }
    World(pbt::Gen & g, const Cfg & c) : c(c), root(g.scratch + "/x"), ref(c) {
        auto ds = create(c, root);
        Maker<T> mk(g, ref.fill);
        for(auto & x : ref.data) x = mk();
        // one chunk holds a single value that is not the fill value
        konst = genChunk(g, c);
        const auto r = chunkRegion(c, konst);
        const T one = same(ref.fill, T(1)) ? T(2) : T(1);
        eachPos(r.shape, [&](const Shape & p) { ref(add(r.begin, p)) = one; });
        ma::writeSubarray<T>(*ds, ma::makeView(static_cast<const T *>(ref.data.data()), c.shape), Shape(c.nd(), 0).begin(), 1);
        zh::File f(root);
        z5::createGroup(f, "g", zf());
        zh::Group gr(f, "g");
        z5::createGroup(gr, "h", zf());
        zh::Group h(gr, "h");
        z5::createGroup(h, "e", zf());
        z5::createDataset(h, "small", "uint8", Shape{4}, Shape{2}, "raw", json::object(), 0, ".", zf());
        const json a = {{"k", 1}, {"l", {1, 2}}};
        z5::writeAttributes(f, a); z5::writeAttributes(gr, a); z5::writeAttributes(zh::Dataset(f, "data"), a);
    }
};

enum Op { CREATE_GROUP, CREATE_GROUP_SUB, CREATE_DS, CREATE_DS_SUB, CREATE_DS_META, GROUP_CREATE, DS_CREATE, ATTR_FILE, ATTR_GROUP, ATTR_DS, RM_ATTR_FILE, RM_ATTR_GROUP, RM_ATTR_DS, WRITE, WRITE_FILL, SCALAR, SCALAR_FILL,
          CHUNK, CHUNK_FILL, RM_CHUNK, RM_DS, UTIL_RM_DS, TRIVIAL, RM_GROUP, RM_DS_HANDLE, RM_FILE, RM_CHUNK_HANDLE, VARLEN, N_MUT, READ = N_MUT, READ_CHUNK, EXISTS, ATTRS, KEYS, UNIQUE, PROPS, OPEN, N_OPS };
static const char * names[] = {"createGroup", "createGroup in a group", "createDataset", "createDataset in a group", "createDataset from metadata", "Group::create", "Dataset::create", "writeAttributes(file)", "writeAttributes(group)",
    "writeAttributes(dataset)", "removeAttribute(file)", "removeAttribute(group)", "removeAttribute(dataset)", "writeSubarray", "writeSubarray of fill", "writeScalar", "writeScalar of fill", "writeChunk", "writeChunk of fill", "removeChunk",
    "Dataset::remove", "removeDataset", "removeTrivialChunks", "Group::remove", "handle Dataset::remove", "File::remove", "Chunk::remove", "writeChunk (varlen)",
    "readSubarray", "readChunk", "chunkExists", "readAttributes", "keys", "unique", "properties", "openDataset"};

template<class T> static void rights(pbt::Gen & g, const Cfg & c) {
    g.desc << c.str();
    auto w = std::make_unique<World<T>>(g, c);
    const auto & [modeName, mode] = g.pick(modes);
    g.desc << " mode " << modeName;
    const bool ro = mode == Mode::r;
    int tried = 0;
    const int n = g.range(1, 8);
    auto f = std::make_unique<zh::File>(w->root, Mode(mode));
    auto ds = z5::openDataset(*f, "data");
    for(int i = 0; i < n; ++i) {
        const int op = g.draw(3) ? g.draw(N_MUT) : g.range(N_MUT, N_OPS - 1);
        if(op == VARLEN && c.fmt != 0) continue;
        g.desc << "\n" << names[op];
        PBT_CHECK(ds->mode().mode() == mode, "the dataset has mode " << ds->mode().printMode());
        const zh::Group gr(*f, "g"), h(gr, "h");
        const zh::Dataset dh(*f, "data");
        const auto before = snapshot(w->root);
        const Region r = genRegion(g, c.shape);
        const int th = g.range(1, 4);
        Shape id = genChunk(g, c);
        if(op == RM_CHUNK || op == RM_CHUNK_HANDLE) id = w->konst;   // one that is stored
        const auto cr = chunkRegion(c, id);
        const T one = same(w->ref.fill, T(5)) ? T(6) : T(5);
        const std::vector<T> vals(prod(r.shape), op == WRITE_FILL ? w->ref.fill : one);
        const std::vector<T> chunk(c.fmt == 0 ? prod(cr.shape) : prod(c.chunks), op == CHUNK_FILL ? w->ref.fill : one);
        bool threw = false, other = false; std::string msg;
        const json a = {{"k", 2}, {"new", "x"}};
        try {
            switch(op) {
                case CREATE_GROUP: z5::createGroup(*f, "n", w->zf()); break;
                case CREATE_GROUP_SUB: z5::createGroup(h, "n", w->zf()); break;
                case CREATE_DS: z5::createDataset(*f, "n", "int16", Shape{3}, Shape{2}, "raw", json::object(), 0, ".", w->zf()); break;
                case CREATE_DS_SUB: z5::createDataset(h, "n", "int16", Shape{3, 4}, Shape{2, 2}, "gzip", json::object(), 0, ".", w->zf(), "default", c.fmt == 3 ? Shape{4, 4} : Shape()); break;
                case CREATE_DS_META: {
                    z5::DatasetMetadata m;
                    z5::createDatasetMetadata("int16", Shape{3}, Shape{2}, c.zarr(), "raw", z5::types::CompressionOptions(), 0, ".", m, w->zf());
                    z5::createDataset(gr, "n", m); break;
                }
                case GROUP_CREATE: zh::Group(gr, "n").create(); break;
                case DS_CREATE: zh::Dataset(gr, "n").create(); break;
                case ATTR_FILE: z5::writeAttributes(*f, a); break;
                case ATTR_GROUP: z5::writeAttributes(gr, a); break;
                case ATTR_DS: z5::writeAttributes(dh, a); break;
                case RM_ATTR_FILE: z5::removeAttribute(*f, "k"); break;
                case RM_ATTR_GROUP: z5::removeAttribute(gr, "k"); break;
                case RM_ATTR_DS: z5::removeAttribute(dh, "k"); break;
                case WRITE: case WRITE_FILL: ma::writeSubarray<T>(*ds, ma::makeView(vals.data(), r.shape), r.begin.begin(), th); break;
                case SCALAR: ma::writeScalar<T>(*ds, r.begin.begin(), r.shape.begin(), one, th); break;
                case SCALAR_FILL: ma::writeScalar<T>(*ds, r.begin.begin(), r.shape.begin(), w->ref.fill, th); break;
                case CHUNK: case CHUNK_FILL: ds->writeChunk(id, chunk.data()); break;
                case VARLEN: ds->writeChunk(id, chunk.data(), true, chunk.size()); break;
                case RM_CHUNK: ds->removeChunk(id); break;
                case RM_DS: ds->remove(); break;
                case UTIL_RM_DS: zu::removeDataset(*ds, th); break;
                case TRIVIAL: zu::removeTrivialChunks<T>(*ds, th); break;
                case RM_GROUP: h.remove(); break;
                case RM_DS_HANDLE: dh.remove(); break;
                case RM_FILE: f->remove(); break;
                case RM_CHUNK_HANDLE: {
                    if(c.fmt == 3) { ds->removeChunk(id); break; }
                    zh::Dataset x(*f, "data", c.sep, w->zf(), c.enc);
                    zh::Chunk(x, id, c.chunks, c.shape).remove(); break;
                }
                case READ: {
                    std::unique_ptr<T[]> m(new T[prod(r.shape)]);
                    ma::readSubarray<T>(*ds, ma::makeView(m.get(), r.shape), r.begin.begin(), th);
                    std::size_t k = 0;
                    eachPos(r.shape, [&](const Shape & p) { PBT_CHECK(same(m[k++], w->ref(add(r.begin, p))), "data"); });
                    break;
                }
                case READ_CHUNK: {
                    if(!ds->chunkExists(w->konst)) PBT_CHECK(false, "the constant chunk is gone");
                    std::unique_ptr<T[]> m(new T[prod(c.chunks)]);
                    ds->readChunk(w->konst, m.get());
                    PBT_CHECK(same(m[0], w->ref(chunkRegion(c, w->konst).begin)), "chunk data");
                    break;
                }
                case EXISTS: PBT_CHECK(ds->chunkExists(w->konst) && ds->getChunkSize(w->konst) == prod(chunkRegion(c, w->konst).shape), "existence or size of a chunk"); break;
                case ATTRS: {
                    for(int which = 0; which < 3; ++which) {
                        json j;
                        if(which == 0) z5::readAttributes(*f, j); else if(which == 1) z5::readAttributes(gr, j); else z5::readAttributes(dh, j);
                        PBT_CHECK(j["k"] == 1 && j["l"] == json({1, 2}), "attributes: " << j.dump());
                    }
                    break;
                }
                case KEYS: {
                    std::vector<std::string> k; f->keys(k); std::sort(k.begin(), k.end());
                    PBT_CHECK((k == std::vector<std::string>{"data", "g"}) && f->in("g") && gr.in("h") && !gr.in("n") && h.exists(), "keys");
                    break;
                }
                case UNIQUE: { std::set<T> u; zu::unique<T>(*ds, th, u); PBT_CHECK(u.count(w->ref(chunkRegion(c, w->konst).begin)), "unique values"); break; }
                case PROPS: PBT_CHECK(ds->shape() == c.shape && ds->defaultChunkShape() == c.chunks && f->isZarr() == c.zarr() && ds->isZarr() == c.zarr() && z5::filesystem::isSubGroup(*f, "g") && !z5::filesystem::isSubGroup(*f, "data"), "properties"); break;
                case OPEN: { auto d = z5::openDataset(h, "small"); PBT_CHECK(d->shape() == Shape{4} && d->mode().mode() == mode, "opened dataset"); break; }
            }
        } catch(const pbt::Fail &) { throw; }
        catch(const std::exception & e) { threw = true; msg = e.what(); }
        g.label(modeName + ":" + names[op]);
        const auto d = diff(before, snapshot(w->root));
        if(op >= N_MUT) {
            PBT_CHECK(!threw, names[op] << " threw in mode " << modeName << ": " << msg);
            PBT_CHECK(d.empty(), names[op] << " in mode " << modeName << ": " << d);
            continue;
        }
        ++tried;
        if(ro) {
            PBT_CHECK(d.empty(), names[op] << " in a container opened read-only: " << d);
            PBT_CHECK(threw, names[op] << " in a container opened read-only did not throw");
            continue;
        }
        PBT_CHECK(!threw, names[op] << " threw in mode " << modeName << ": " << msg);
        auto gone = [&](const char * p) { return !fs::exists(w->root + "/" + p); };
        switch(op) {
            case CREATE_GROUP: case CREATE_DS: PBT_CHECK(!gone("n"), "nothing was created"); break;
            case CREATE_DS_META: case GROUP_CREATE: case DS_CREATE: PBT_CHECK(!gone("g/n"), "nothing was created"); break;
            case CREATE_GROUP_SUB: case CREATE_DS_SUB: PBT_CHECK(!gone("g/h/n"), "nothing was created"); break;
            case ATTR_FILE: case ATTR_GROUP: case ATTR_DS: case RM_ATTR_FILE: case RM_ATTR_GROUP: case RM_ATTR_DS: {
                json j;
                if(op == ATTR_FILE || op == RM_ATTR_FILE) z5::readAttributes(*f, j); else if(op == ATTR_GROUP || op == RM_ATTR_GROUP) z5::readAttributes(gr, j); else z5::readAttributes(dh, j);
                if(op <= ATTR_DS) PBT_CHECK(j["k"] == 2 && j["new"] == "x" && j["l"] == json({1, 2}), "attributes: " << j.dump());
                else PBT_CHECK(!j.contains("k") && j["l"] == json({1, 2}), "attributes: " << j.dump());
                break;
            }
            case WRITE: case WRITE_FILL: case SCALAR: case SCALAR_FILL: case CHUNK: case CHUNK_FILL: case RM_CHUNK: case RM_CHUNK_HANDLE: case TRIVIAL: {
                const Region & at = op <= SCALAR_FILL ? r : op == TRIVIAL ? chunkRegion(c, w->konst) : cr;
                const T want = op == WRITE || op == SCALAR || op == CHUNK ? one : w->ref.fill;
                eachPos(at.shape, [&](const Shape & p) { w->ref(add(at.begin, p)) = want; });
                auto d2 = z5::openDataset(*f, "data");
                std::unique_ptr<T[]> m(new T[prod(c.shape)]);
                ma::readSubarray<T>(*d2, ma::makeView(m.get(), c.shape), Shape(c.nd(), 0).begin(), th);
                for(std::size_t k = 0; k < prod(c.shape); ++k) {
                    if(op == TRIVIAL && same(m[k], w->ref.fill)) continue;    // which other chunks are trivial is the business of P18
                    PBT_CHECK(same(m[k], w->ref.data[k]), "element " << k << " after " << names[op]);
                }
                if(op == RM_CHUNK || op == RM_CHUNK_HANDLE || op == TRIVIAL) PBT_CHECK(!d2->chunkExists(w->konst), "the chunk exists after " << names[op]);
                break;
            }
            case RM_DS: case UTIL_RM_DS: case RM_DS_HANDLE: PBT_CHECK(gone("data") && !gone("g/h/small"), "the dataset was not removed"); break;
            case RM_GROUP: PBT_CHECK(gone("g/h") && !gone("g") && !gone("data"), "the group was not removed"); break;
            case RM_FILE: PBT_CHECK(gone(""), "the container was not removed"); break;
            default: break;
        }
        // start over
        ds.reset(); f.reset();
        fs::remove_all(w->root);
        w = std::make_unique<World<T>>(g, c);
        f = std::make_unique<zh::File>(w->root, Mode(mode));
        ds = z5::openDataset(*f, "data");
    }
    g.label("fmt" + std::to_string(c.fmt));
    g.nontrivial = tried >= 2;
}

PBT_TEST(rights) {
    GenOpt o; o.dtypes = {"uint8", "int16", "uint32", "int64", "float32", "float64"}; o.maxExtent = {0, 30, 10, 6, 4, 3}; o.maxDim = 3; o.maxChunks = 40;
    const auto c = genCfg(g, o);
    dispatch(c.dtype, [&](auto t) { rights<decltype(t)>(g, c); });
}

// createFile and opening: every mode against a container that exists or not
PBT_TEST(files) {
    const bool zarr = g.flip(), present = g.flip(), deep = g.flip();
    const int zf = g.flip() ? 2 : 3;
    const auto & [modeName, mode] = g.pick(modes);
    const std::string root = g.scratch + (deep ? "/p/q/x" : "/x");
    fs::create_directories(g.scratch);
    g.desc << (zarr ? "zarr v" + std::to_string(zf) : std::string("n5")) << (present ? " present" : " absent") << " mode " << modeName;
    if(present) { z5::createFile(zh::File(root), zarr, zf); z5::createGroup(zh::File(root), "g", zf); }
    const auto before = snapshot(g.scratch);
    const zh::File f(root, Mode(mode));
    PBT_CHECK(f.exists() == present, "exists()");
    PBT_CHECK(diff(before, snapshot(g.scratch)).empty(), "a handle changed the disk");
    bool threw = false;
    try { z5::createFile(f, zarr, zf); } catch(const std::exception &) { threw = true; }
    const bool may = !present && mode != Mode::r && mode != Mode::r_p;
    PBT_CHECK(threw == !may, "createFile " << (threw ? "threw" : "did not throw"));
    const auto after = snapshot(root);
    if(!may) { const auto d = diff(before, snapshot(g.scratch)); PBT_CHECK(d.empty(), "a refused createFile: " << d); }
    else PBT_CHECK(after.count(!zarr ? "attributes.json" : zf == 3 ? "zarr.json" : ".zgroup") && f.isZarr() == zarr, "createFile wrote the wrong files");
    // groups and datasets that do not exist can not be opened, and opening them creates nothing
    if(f.exists()) {
        const auto now = snapshot(g.scratch);
        bool t2 = false;
        try { z5::openDataset(f, "nope"); } catch(const std::exception &) { t2 = true; }
        PBT_CHECK(t2, "a dataset that does not exist was opened");
        const auto d = diff(now, snapshot(g.scratch));
        PBT_CHECK(d.empty(), "opening what does not exist: " << d);
    }
    g.label(modeName + (present ? ":present" : ":absent"));
    g.nontrivial = present;
}

PBT_MAIN

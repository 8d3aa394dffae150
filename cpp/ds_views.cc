// parts: zds
// P20 (and the C++ side of P01): datasets and views with arbitrary layouts
#include "zds.hpp"

using namespace zds;
namespace ma = z5::multiarray;

template<class T> static void history(pbt::Gen & g, const Cfg & c) {
    auto ds = create(c, g.scratch + "/x");
    // a second handle of the same dataset; both are used in turns
    decltype(ds) other;
    const bool two = g.flip();
    Model<T> ref(c);
    const int n = g.range(2, 10);
    bool strided = false, partial = false, removed = false;
    for(int i = 0; i < n; ++i) {
        const int op = g.draw(9);
        if(two && g.flip()) {
            if(!other) other = open(g.scratch + "/x");
            std::swap(ds, other);
            g.desc << "\nother handle";
        }
        const int threads = g.flip(1, 4) ? g.range(2, 4) : 1;
        if(op <= 3) {
            const auto r = genRegion(g, c.shape);
            const auto l = genLayout(g, r.shape, true);
            Buf<T> b(l, r.shape);
            Maker<T> mk(g, ref.fill);
            eachPos(r.shape, [&](const Shape & p) { b(p) = mk(); });
            // (overlapping rows: the last value of a shared element counts, so read it back from the buffer)
            eachPos(r.shape, [&](const Shape & p) { ref(add(r.begin, p)) = b(p); });
            std::vector<T> before(b.mem.get(), b.mem.get() + l.size);
            g.desc << "\nwrite " << show(r.begin) << show(r.shape) << " strides " << show(l.strides) << " offset " << l.offset << " threads " << threads << " mode " << mk.mode;
            ma::writeSubarray<T>(*ds, b.cview(), r.begin.begin(), threads);
            PBT_CHECK(std::memcmp(before.data(), b.mem.get(), l.size * sizeof(T)) == 0, "a write changed its source");
            strided |= !l.plain;
            for(std::size_t d = 0; d < c.nd(); ++d) partial |= r.begin[d] % c.chunks[d] || ((r.begin[d] + r.shape[d]) % c.chunks[d] && r.begin[d] + r.shape[d] != c.shape[d]);
        } else if(op == 4) {
            const auto r = genRegion(g, c.shape);
            Maker<T> mk(g, ref.fill);
            const T v = mk();
            g.desc << "\nscalar " << show(r.begin) << show(r.shape);
            ma::writeScalar<T>(*ds, r.begin.begin(), r.shape.begin(), v, threads);
            eachPos(r.shape, [&](const Shape & p) { ref(add(r.begin, p)) = v; });
        } else if(op == 5) {
            const auto id = genChunk(g, c);
            const auto r = chunkRegion(c, id);
            const Shape full = c.zarr() ? c.chunks : r.shape;
            std::unique_ptr<T[]> m(new T[prod(full)]);
            for(std::size_t k = 0; k < prod(full); ++k) m[k] = ref.fill;
            Maker<T> mk(g, ref.fill);
            g.desc << "\nchunk " << show(id) << " mode " << mk.mode;
            eachPos(r.shape, [&](const Shape & p) { ref(add(r.begin, p)) = m[flat(p, full)] = mk(); });
            ds->writeChunk(id, m.get());
        } else if(op == 6) {
            const auto id = genChunk(g, c);
            const auto r = chunkRegion(c, id);
            g.desc << "\nremove " << show(id);
            ds->removeChunk(id);
            eachPos(r.shape, [&](const Shape & p) { ref(add(r.begin, p)) = ref.fill; });
            removed = true;
        } else if(op == 7) {
            ds.reset();
            ds = open(g.scratch + "/x");
            g.desc << "\nreopen";
        }
        if(two && other && g.flip(1, 3)) { std::swap(ds, other); g.desc << "\n  other handle"; }
        const bool last = i + 1 == n;
        Region r = last ? Region{Shape(c.nd(), 0), c.shape} : genRegion(g, c.shape);
        const auto l = genLayout(g, r.shape);
        Buf<T> b(l, r.shape);
        g.desc << "\n  read " << show(r.begin) << show(r.shape) << " strides " << show(l.strides) << " offset " << l.offset;
        ma::readSubarray<T>(*ds, b.view(), r.begin.begin(), threads);
        eachPos(r.shape, [&](const Shape & p) {
            PBT_CHECK(same(b(p), ref(add(r.begin, p))), "op " << i << ": element " << show(add(r.begin, p)) << " is wrong");
        });
        b.checkOutside("read");
        strided |= !l.plain;
        if(op == 8) {
            // one chunk in full
            const auto id = genChunk(g, c);
            const auto rc = chunkRegion(c, id);
            const Shape full = c.zarr() ? c.chunks : rc.shape;
            if(ds->chunkExists(id)) {
                std::unique_ptr<T[]> m(new T[prod(full)]);
                PBT_CHECK(!ds->readChunk(id, m.get()), "chunk " << show(id) << " is varlen");
                eachPos(rc.shape, [&](const Shape & p) { PBT_CHECK(same(m[flat(p, full)], ref(add(rc.begin, p))), "chunk " << show(id) << " at " << show(p)); });
                Shape got; ds->getChunkShape(id, got);
                PBT_CHECK(got == rc.shape, "shape of chunk " << show(id) << ": " << show(got));
                PBT_CHECK(ds->getChunkSize(id) == prod(rc.shape), "size of chunk " << show(id));
            } else eachPos(rc.shape, [&](const Shape & p) { PBT_CHECK(same(ref.fill, ref(add(rc.begin, p))), "chunk " << show(id) << " does not exist"); });
        }
    }
    // a chunk is stored if it holds anything but the fill value
    eachPos(c.grid(), [&](const Shape & id) {
        const auto r = chunkRegion(c, id);
        bool want = false;
        eachPos(r.shape, [&](const Shape & p) { want |= !same(ref(add(r.begin, p)), ref.fill); });
        PBT_CHECK(ds->chunkExists(id) == want, "at the end: chunk " << show(id) << (want ? " is missing" : " exists"));
    });
    g.nontrivial = strided && partial;
    g.label("strided", strided); g.label("partial", partial); g.label("removed", removed); g.label("two-handles", bool(other));
    g.label("fmt" + std::to_string(c.fmt)); g.label("type:" + c.dtype); g.label("dims:" + std::to_string(c.nd())); g.label("codec:" + c.codec);
}

PBT_TEST(history) {
    const auto c = genCfg(g);
    g.desc << c.str();
    dispatch(c.dtype, [&](auto t) { history<decltype(t)>(g, c); });
}

// copyView / fillView / subview between views of any layout
template<class T> static void copy(pbt::Gen & g) {
    Shape shape, big, at;
    const int nd = g.range(0, 5);
    static const int64_t ext[] = {0, 40, 12, 7, 5, 4};
    for(int d = 0; d < nd; ++d) shape.push_back(g.range(1, ext[nd]));
    // the copied part lies inside of larger views
    auto outer = [&](Shape & off) { Shape s; off.clear(); for(auto x : shape) { off.push_back(g.flip(1, 3) ? g.draw(3) : 0); s.push_back(x + off.back() + (g.flip(1, 3) ? g.draw(3) : 0)); } return s; };
    Shape so, dof;
    const Shape ss = outer(so), dsh = outer(dof);
    const auto ls = genLayout(g, ss, true), ld = genLayout(g, dsh);
    Buf<T> src(ls, ss), dst(ld, dsh);
    std::vector<T> before(dst.mem.get(), dst.mem.get() + ld.size);
    Maker<T> mk(g, T());
    eachPos(ss, [&](const Shape & p) { src(p) = mk(); });
    std::vector<T> srcBefore(src.mem.get(), src.mem.get() + ls.size);
    const int what = g.draw(3);
    g.desc << (what == 2 ? "fill " : "copy ") << show(shape) << " from " << show(ss) << " strides " << show(ls.strides) << " at " << show(so) << " to " << show(dsh) << " strides " << show(ld.strides) << " at " << show(dof);
    std::vector<T> want(before);
    const T fv = value<T>(123);
    eachPos(shape, [&](const Shape & p) { want[dst.at(add(dof, p))] = what == 2 ? fv : src(add(so, p)); });
    auto dv = ma::subview(dst.view(), dof, shape);
    PBT_CHECK(dv.size() == prod(shape) && dv.ndim() == shape.size(), "size of the sub-view");
    if(what == 0) ma::copyView(ma::subview(src.cview(), so, shape), dv);
    else if(what == 1) ma::copyView(ma::subview(src.view(), so, shape), dv);
    else ma::fillView(dv, fv);
    for(std::size_t i = 0; i < ld.size; ++i) PBT_CHECK(std::memcmp(&want[i], &dst.mem[i], sizeof(T)) == 0, "element " << i << " of the destination buffer is wrong");
    PBT_CHECK(std::memcmp(srcBefore.data(), src.mem.get(), ls.size * sizeof(T)) == 0, "the source was changed");
    // a contiguous view made by makeView covers its buffer in C order
    const auto mv = ma::makeView(dst.mem.get(), shape);
    std::size_t k = 0;
    eachPos(shape, [&](const Shape & p) { std::size_t i = 0; for(std::size_t d = 0; d < p.size(); ++d) i += p[d] * mv.strides[d]; PBT_CHECK(i == k, "C order strides " << show(mv.strides)); ++k; });
    g.nontrivial = (!ls.plain || !ld.plain) && prod(shape) > 1;
    g.label("dims:" + std::to_string(nd)); g.label(what == 2 ? "fill" : "copy"); g.label("strided", g.nontrivial);
}

PBT_TEST(copy) {
    switch(g.draw(4)) {
        case 0: copy<uint8_t>(g); break;
        case 1: copy<int32_t>(g); break;
        case 2: copy<double>(g); break;
        default: copy<std::complex<double>>(g);
    }
}

PBT_MAIN

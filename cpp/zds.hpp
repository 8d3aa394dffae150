// Datasets for the C++ harnesses: generated configurations, creation, re-opening, a model array, strided layouts.
// The factory (instantiated for every data type and codec) is compiled separately in zds.cc.
#pragma once
#include <complex>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "pbt.hpp"
#include "z5/dataset.hxx"
#include "z5/multiarray/array_access.hxx"
#include "z5/multiarray/broadcast.hxx"

namespace zds {

using Shape = z5::types::ShapeType;

struct Cfg {
    int fmt = 0;                 // 0 n5, 1 zarr v2, 2 zarr v3, 3 sharded zarr v3
    Shape shape, chunks, shards;
    std::string dtype = "uint8", codec = "raw", sep = ".", enc = "default";
    nlohmann::json opts = nlohmann::json::object();
    double fill = 0;
    bool zarr() const { return fmt > 0; }
    std::size_t nd() const { return shape.size(); }
    Shape grid() const { Shape g; for(std::size_t d = 0; d < nd(); ++d) g.push_back((shape[d] + chunks[d] - 1) / chunks[d]); return g; }
    std::string str() const;
};

struct GenOpt {
    std::vector<int> fmts{0, 1, 2, 3};
    int maxDim = 4;
    std::vector<std::string> dtypes{"uint8", "int16", "uint32", "int64", "float32", "float64", "complex64", "complex128"};
    bool fills = true;
    bool codecs = true;
    std::size_t maxChunks = 120;
    std::vector<int64_t> maxExtent{0, 60, 20, 10, 6, 5};
};

Cfg genCfg(pbt::Gen & g, const GenOpt & o = GenOpt());
// mode: "a", "r", "r+"
std::unique_ptr<z5::Dataset> create(const Cfg & c, const std::string & path);
std::unique_ptr<z5::Dataset> open(const std::string & path, const std::string & mode = "a", const std::string & name = "data");
std::string show(const Shape & s);

inline std::size_t prod(const Shape & s) { std::size_t n = 1; for(auto x : s) n *= x; return n; }

// call f.template operator()<T>() for the data type
template<class F> void dispatch(const std::string & dtype, F && f) {
    if(dtype == "uint8") f(uint8_t());
    else if(dtype == "int16") f(int16_t());
    else if(dtype == "uint32") f(uint32_t());
    else if(dtype == "int64") f(int64_t());
    else if(dtype == "float32") f(float());
    else if(dtype == "float64") f(double());
#ifndef ZDS_NO_COMPLEX
    else if(dtype == "complex64") f(std::complex<float>());
    else if(dtype == "complex128") f(std::complex<double>());
#endif
    else throw std::runtime_error("harness: no type " + dtype);
}

// visit all positions of a shape
template<class F> void eachPos(const Shape & shape, F && f) {
    if(prod(shape) == 0) return;
    Shape p(shape.size(), 0);
    while(true) {
        f(p);
        int d = int(shape.size()) - 1;
        for(; d >= 0; --d) { if(++p[d] < shape[d]) break; p[d] = 0; }
        if(d < 0) return;
    }
}

inline std::size_t flat(const Shape & p, const Shape & shape) { std::size_t i = 0; for(std::size_t d = 0; d < p.size(); ++d) i = i * shape[d] + p[d]; return i; }

// bitwise, with zeros of either sign equal
template<class T> bool same(const T & a, const T & b) { return std::memcmp(&a, &b, sizeof(T)) == 0 || a == b || (a != a && b != b); }

// values: mode 0 any bits, 1 small, 2 constant, 3 fill, 4 mostly fill
template<class T> T value(uint64_t r) { if constexpr(std::is_integral_v<T>) return T(r); else if constexpr(std::is_floating_point_v<T>) return T(int64_t(r % 2000001) - 1000000) / T(8); else return T(typename T::value_type(int64_t(r % 20001) - 10000) / 8, typename T::value_type(r % 7)); }

template<class T> struct Maker {
    uint64_t s; int mode; T fill;
    Maker(pbt::Gen & g, T fill) : s(g.draw(1 << 20)), mode(g.draw(6)), fill(fill) {}
    uint64_t next() { s = s * 6364136223846793005ull + 1442695040888963407ull; return s >> 20; }
    T operator()() {
        switch(mode) {
            case 0: case 5: return value<T>(next());
            case 1: return value<T>(next() % 5);
            case 2: return value<T>(7);
            case 3: return fill;
            default: return next() % 9 ? fill : value<T>(next());
        }
    }
};

// A strided layout: permuted axes, steps, padding between rows, an offset; sometimes (for sources) overlapping rows
struct Layout { Shape strides; std::size_t offset = 0, size = 0; bool plain = true; };
Layout genLayout(pbt::Gen & g, const Shape & shape, bool overlap = false);

// An exactly sized heap buffer with a view inside; the elements outside of the view hold a canary
template<class T> struct Buf {
    Layout l; Shape shape;
    std::unique_ptr<T[]> mem;      // not a vector: the sanitizer sees the exact size
    std::vector<bool> inside;
    static T canary(std::size_t i) { return value<T>(i * 37 + 11); }
    Buf(const Layout & l, const Shape & shape) : l(l), shape(shape), mem(new T[l.size]), inside(l.size, false) {
        for(std::size_t i = 0; i < l.size; ++i) mem[i] = canary(i);
        eachPos(shape, [&](const Shape & p) { inside[at(p)] = true; });
    }
    std::size_t at(const Shape & p) const { std::size_t i = l.offset; for(std::size_t d = 0; d < p.size(); ++d) i += p[d] * l.strides[d]; return i; }
    T & operator()(const Shape & p) { return mem[at(p)]; }
    z5::multiarray::ArrayView<T> view() { return {mem.get() + l.offset, shape, l.strides}; }
    z5::multiarray::ConstArrayView<T> cview() const { return {mem.get() + l.offset, shape, l.strides}; }
    void checkOutside(const char * what) const {
        for(std::size_t i = 0; i < l.size; ++i) if(!inside[i]) { const T c = canary(i); PBT_CHECK(std::memcmp(&mem[i], &c, sizeof(T)) == 0, what << ": element " << i << " of the buffer is not part of the view, but was changed"); }
    }
};

// The reference: an array in memory
template<class T> struct Model {
    Shape shape; std::vector<T> data; T fill;
    Model(const Cfg & c) : shape(c.shape), fill(T(c.zarr() ? c.fill : 0)) { data.assign(prod(shape), fill); }
    T & operator()(const Shape & p) { return data[flat(p, shape)]; }
};

struct Region { Shape begin, shape; };
Region genRegion(pbt::Gen & g, const Shape & shape);
Shape genChunk(pbt::Gen & g, const Cfg & c);
inline Shape add(const Shape & a, const Shape & b) { Shape r(a); for(std::size_t d = 0; d < r.size(); ++d) r[d] += b[d]; return r; }
inline Region chunkRegion(const Cfg & c, const Shape & id) {
    Region r{Shape(c.nd()), Shape(c.nd())};
    for(std::size_t d = 0; d < c.nd(); ++d) { r.begin[d] = id[d] * c.chunks[d]; r.shape[d] = std::min(c.chunks[d], c.shape[d] - r.begin[d]); }
    return r;
}

}  // namespace zds

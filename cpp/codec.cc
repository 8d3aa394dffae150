// The compressors as functions: lossless, and the requested options are the ones that are applied.
// The reference for the options is the codec library itself, called directly.
#ifdef ZV_STOCK_ZLIB
#undef WITH_LIBDEFLATE
#endif
#include <array>
#include <complex>
#include <memory>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include "pbt.hpp"
#include <libdeflate.h>
#include <zlib.h>
#include "z5/compression/blosc_compressor.hxx"
#include "z5/compression/bzip2_compressor.hxx"
#include "z5/compression/lz4_compressor.hxx"
#include "z5/compression/xz_compressor.hxx"
#include "z5/compression/zlib_compressor.hxx"
#include "z5/compression/zstd_compressor.hxx"
#include "z5/metadata.hxx"

using Opts = z5::types::CompressionOptions;
using Bytes = std::vector<char>;
namespace cmp = z5::compression;
namespace tp = z5::types;

struct Codec { std::string name; Opts opts; };

static std::string show(const Codec & c) {
    nlohmann::json j; tp::compressionTypeToJson(c.opts, j);
    return c.name + " " + j.dump();
}

template<class T> static std::unique_ptr<cmp::CompressorBase<T>> make(const std::string & name, const Opts & o) {
    z5::DatasetMetadata m;
    m.compressionOptions = o;
    if(name == "blosc") return std::make_unique<cmp::BloscCompressor<T>>(m);
    if(name == "zlib" || name == "gzip") return std::make_unique<cmp::ZlibCompressor<T>>(m);
    if(name == "bzip2") return std::make_unique<cmp::Bzip2Compressor<T>>(m);
    if(name == "lz4") return std::make_unique<cmp::Lz4Compressor<T>>(m);
    if(name == "xz") return std::make_unique<cmp::XzCompressor<T>>(m);
    if(name == "zstd") return std::make_unique<cmp::ZstdCompressor<T>>(m);
    throw std::runtime_error("harness: no codec");
}

static const std::vector<std::string> CNAMES{"blosclz", "lz4", "lz4hc", "zlib", "zstd"};

static Codec genCodec(pbt::Gen & g, const std::vector<std::string> & names) {
    Codec c; c.name = g.pick(names);
    auto level = [&](int lo, int hi) { c.opts["level"] = int(g.range(lo, hi)); };
    if(c.name == "blosc") {
        level(0, 9);
        c.opts["shuffle"] = int(g.draw(3));
        c.opts["codec"] = g.pick(CNAMES);
        c.opts["blocksize"] = g.flip(1, 3) ? int(g.pick(std::vector<int>{16, 64, 256, 1000, 4096, 65536, 1 << 20})) : 0;
        c.opts["nthreads"] = g.flip(1, 6) ? int(g.range(2, 4)) : 1;
    } else if(c.name == "zlib" || c.name == "gzip") { level(1, 9); c.opts["useZlib"] = c.name == "zlib"; }
    else if(c.name == "bzip2") level(1, 9);
    else if(c.name == "lz4") level(0, 12);
    else if(c.name == "xz") level(0, g.flip(1, 20) ? 9 : 6);     // the highest presets need hundreds of MB
    else if(c.name == "zstd") { if(g.flip(1, 4)) level(-7, 22); else level(0, 12); }
    return c;
}
static const std::vector<std::string> ALL{"blosc", "zlib", "gzip", "bzip2", "lz4", "xz", "zstd"};

// n bytes of the given kind
static void fillBytes(pbt::Gen & g, char * p, std::size_t n, std::string & kind) {
    uint64_t s = g.draw(1 << 16);
    auto next = [&] { s = s * 6364136223846793005ull + 1442695040888963407ull; return s >> 24; };
    const int k = int(g.draw(9));
    kind = std::vector<std::string>{"zero", "constant", "random", "ramp", "sparse", "text", "runs", "half random", "period"}[k];
    const char c = char(next());
    const std::size_t period = 1 + next() % 5000;
    std::size_t run = 0; char rc = 0;
    for(std::size_t i = 0; i < n; ++i) {
        switch(k) {
            case 0: p[i] = 0; break;
            case 1: p[i] = c; break;
            case 2: p[i] = char(next()); break;
            case 3: p[i] = char(i / 7); break;
            case 4: p[i] = next() % 50 ? 0 : char(next()); break;
            case 5: p[i] = "the quick brown fox jumps over a lazy dog "[(i * 7 + (next() % 3)) % 42]; break;
            case 6: if(run == 0) { run = 1 + next() % 900; rc = char(next()); } --run; p[i] = rc; break;
            case 7: p[i] = i < n / 2 ? char(i) : char(next()); break;
            default: p[i] = i < period ? char(next()) : p[i - period]; break;
        }
    }
}

// number of elements: mostly small, sometimes around the internal buffer and block sizes
static std::size_t genSize(pbt::Gen & g, std::size_t elem) {
    switch(g.draw(12)) {
        case 0: return 1 + g.draw(4);
        case 1: case 2: case 3: return 1 + g.draw(300);
        case 4: { static const std::vector<std::size_t> edges{1 << 10, 1 << 12, 1 << 15, 1 << 16, 1 << 17, 1 << 18, 1 << 19, 100000, 900000};
                  const std::size_t e = g.flip(1, 2) ? edges[g.draw(4)] : g.pick(edges);
                  return std::max<std::size_t>(1, (e + g.draw(9)) / elem); }
        case 5: return g.flip(1, 8) ? (std::size_t(1 + g.draw(600000)) + elem) / elem : 1 + g.draw(3000);
        default: return 1 + g.draw(5000);
    }
}

template<class F> static void dispatch(uint64_t k, F && f) {
    switch(k) {
        case 0: f(uint8_t()); break;
        case 1: f(int16_t()); break;
        case 2: f(uint32_t()); break;
        case 3: f(double()); break;
        default: f(std::complex<double>()); break;
    }
}

template<class T> struct Exact {       // exactly sized, so that the sanitizer sees every access outside
    std::unique_ptr<T[]> p; std::size_t n;
    Exact(std::size_t n, int byte = 0) : p(new T[n]), n(n) { std::memset((void *) p.get(), byte, n * sizeof(T)); }
    std::size_t bytes() const { return n * sizeof(T); }
};

// what the codec library gives for these options; empty if unknown
static Bytes reference(const std::string & name, const Opts & o, const char * in, std::size_t n, std::size_t typesize, int backend) {
    Bytes out;
    const int level = std::get<int>(o.at("level"));
    if(name == "zstd") {
        out.resize(ZSTD_compressBound(n));
        const auto r = ZSTD_compress(out.data(), out.size(), in, n, level);
        if(ZSTD_isError(r)) return {};
        out.resize(r);
    } else if(name == "xz") {
        out.resize(lzma_stream_buffer_bound(n));
        // streaming, like an encoder of unknown length (the one-shot function stores sizes in the header)
        lzma_stream s = LZMA_STREAM_INIT;
        if(lzma_easy_encoder(&s, level, LZMA_CHECK_CRC64) != LZMA_OK) return {};
        s.next_in = (const uint8_t *) in; s.avail_in = n; s.next_out = (uint8_t *) out.data(); s.avail_out = out.size();
        const auto r = lzma_code(&s, LZMA_FINISH);
        const auto total = s.total_out; lzma_end(&s);
        if(r != LZMA_STREAM_END) return {};
        out.resize(total);
    } else if(name == "zlib" || name == "gzip") {
        if(backend == 0) {
            auto * c = libdeflate_alloc_compressor(std::max(1, level));
            out.resize(libdeflate_gzip_compress_bound(c, n) + 64);
            const auto r = name == "zlib" ? libdeflate_zlib_compress(c, in, n, out.data(), out.size()) : libdeflate_gzip_compress(c, in, n, out.data(), out.size());
            libdeflate_free_compressor(c);
            out.resize(r);
        } else {
            z_stream zs; std::memset(&zs, 0, sizeof(zs));
            // both memory levels that are in use
            const int mem = backend == 1 ? 8 : 9;
            if(deflateInit2(&zs, level, Z_DEFLATED, name == "zlib" ? 15 : 31, mem, Z_DEFAULT_STRATEGY) != Z_OK) return {};
            out.resize(deflateBound(&zs, n));
            zs.next_in = (Bytef *) in; zs.avail_in = n; zs.next_out = (Bytef *) out.data(); zs.avail_out = out.size();
            const int r = deflate(&zs, Z_FINISH);
            const auto total = zs.total_out; deflateEnd(&zs);
            if(r != Z_STREAM_END) return {};
            out.resize(total);
        }
    } else if(name == "blosc") {
        out.resize(n + BLOSC_MAX_OVERHEAD);
        const int r = blosc_compress_ctx(level, std::get<int>(o.at("shuffle")), typesize, n, in, out.data(), out.size(),
                                         std::get<std::string>(o.at("codec")).c_str(), std::get<int>(o.at("blocksize")), 1);
        if(r <= 0) return {};
        out.resize(r);
    }
    return out;
}

// the encoder must not have used other options than the requested ones
static void checkApplied(pbt::Gen & g, const Codec & c, const Bytes & out, const char * in, std::size_t n, std::size_t typesize) {
    if(c.name == "bzip2") {
        PBT_CHECK(out.size() > 4 && out[0] == 'B' && out[1] == 'Z' && out[2] == 'h', "not a bzip2 stream");
        PBT_CHECK(out[3] == '0' + std::get<int>(c.opts.at("level")), "the bzip2 stream was made at level " << out[3] << ", requested " << show(c));
        g.label("option verified");
        return;
    }
    if(c.name == "zlib") PBT_CHECK((uint8_t(out[0]) & 15) == 8 && (uint8_t(out[0]) * 256 + uint8_t(out[1])) % 31 == 0, "not a zlib stream");
    if(c.name == "gzip") PBT_CHECK(uint8_t(out[0]) == 0x1f && uint8_t(out[1]) == 0x8b, "not a gzip stream");
    if(c.name == "zstd") PBT_CHECK(out.size() >= 4 && std::memcmp(out.data(), "\x28\xb5\x2f\xfd", 4) == 0, "not a zstd frame");
    if(c.name == "xz") PBT_CHECK(out.size() >= 6 && std::memcmp(out.data(), "\xfd" "7zXZ\0", 6) == 0, "not an xz stream");
    if(c.name == "blosc") {
        PBT_CHECK(out.size() >= 16, "not a blosc buffer");
        PBT_CHECK(uint8_t(out[3]) == typesize, "the blosc buffer has type size " << int(uint8_t(out[3])) << ", the data type has " << typesize);
    }
    if(c.name == "lz4" || n > 70000) return;   // lz4 has no level; large inputs: only the round trip
    const int backends = (c.name == "zlib" || c.name == "gzip") ? 3 : 1;
    for(int b = 0; b < backends; ++b) if(reference(c.name, c.opts, in, n, typesize, b) == out) { g.label("option verified"); return; }
    // not what the library gives for these options (another way to drive the encoder is fine): is it what it gives for others?
    std::vector<Opts> others;
    auto with = [&](const std::string & k, const auto & v) { auto o = c.opts; o[k] = v; if(!(o == c.opts)) others.push_back(o); };
    if(c.name == "zstd") for(int l = -7; l <= 22; ++l) with("level", l);
    else if(c.name == "xz") for(int l = 0; l <= 6; ++l) with("level", l);
    else for(int l = 0; l <= 9; ++l) with("level", l);
    if(c.name == "blosc") {
        for(int s = 0; s < 3; ++s) with("shuffle", s);
        for(auto & s : CNAMES) with("codec", s);
        for(int s : {0, 16, 64, 256, 1000, 4096, 65536, 1 << 20}) with("blocksize", s);
        auto base = c.opts;
        for(int l = 0; l <= 9; ++l) { auto o = base; o["level"] = l; o["blocksize"] = 0; others.push_back(o); o["shuffle"] = 1; others.push_back(o); o["codec"] = std::string("lz4"); others.push_back(o); }
    }
    for(auto & o : others) for(int b = 0; b < backends; ++b) {
        if(reference(c.name, o, in, n, typesize, b) != out) continue;
        Codec d{c.name, o};
        PBT_CHECK(false, "compressed with " << show(d) << ", requested was " << show(c));
    }
    g.label("option not identified");
}

template<class T> static void checkRoundtrip(pbt::Gen & g, const Codec & c, cmp::CompressorBase<T> & comp, const Exact<T> & in, const Bytes & out) {
    for(int way = 0; way < 2; ++way) {
        Exact<T> back(in.n, 0xA5);
        if(way == 0) {
            std::unique_ptr<char[]> e(new char[out.size()]);
            std::memcpy(e.get(), out.data(), out.size());
            comp.decompress(e.get(), out.size(), back.p.get(), back.n);
        } else comp.decompress(out, back.p.get(), back.n);
        PBT_CHECK(std::memcmp(back.p.get(), in.p.get(), in.bytes()) == 0, show(c) << ": " << in.n << " elements of " << sizeof(T) << " bytes are not the same after compression and decompression");
    }
}

PBT_TEST(roundtrip) {
    const auto c = genCodec(g, ALL);
    const auto ti = g.draw(5);
    dispatch(ti, [&](auto t) {
        using T = decltype(t);
        std::size_t n = genSize(g, sizeof(T));
        const bool slow = (c.name == "zstd" && std::get<int>(c.opts.at("level")) > 12) || (c.name == "xz" && std::get<int>(c.opts.at("level")) > 3);
        if(slow) n = std::min<std::size_t>(n, 30000);
        Exact<T> in(n);
        std::string kind;
        fillBytes(g, (char *) in.p.get(), in.bytes(), kind);
        g.desc << show(c) << ", " << n << " x " << sizeof(T) << " bytes, " << kind;
        g.label(c.name); g.label(kind); g.label("over 256 KiB", in.bytes() > (1 << 18)); g.label("over 64 KiB", in.bytes() > (1 << 16));
        auto comp = make<T>(c.name, c.opts);
        Opts got; comp->getOptions(got);
        for(auto & [k, v] : c.opts) PBT_CHECK(got.count(k) && got.at(k) == v, show(c) << ": the compressor does not report option " << k);
        Bytes out;
        if(g.flip(1, 2)) { out.assign(g.draw(5000), 'x'); g.label("dirty output"); }
        comp->compress(in.p.get(), out, n);
        checkRoundtrip<T>(g, c, *comp, in, out);
        checkApplied(g, c, out, (const char *) in.p.get(), in.bytes(), sizeof(T));
        g.nontrivial = n > 1 && kind != "zero";
        // the same object again, with other data and the same output vector
        const std::size_t m = 1 + g.draw(2000);
        Exact<T> in2(m);
        fillBytes(g, (char *) in2.p.get(), in2.bytes(), kind);
        comp->compress(in2.p.get(), out, m);
        checkRoundtrip<T>(g, c, *comp, in2, out);
    });
}

// what other encoders of the same codec produce is decoded as well
PBT_TEST(foreign) {
    const auto c = genCodec(g, {"blosc", "zlib", "gzip", "bzip2", "lz4", "xz", "zstd"});
    dispatch(g.draw(5), [&](auto t) {
        using T = decltype(t);
        std::size_t n = genSize(g, sizeof(T));
        n = std::min<std::size_t>(n, 40000);
        Exact<T> in(n);
        std::string kind;
        fillBytes(g, (char *) in.p.get(), in.bytes(), kind);
        const char * p = (const char *) in.p.get();
        const std::size_t nb = in.bytes();
        Bytes out; std::string how;
        if(c.name == "blosc") {
            auto o = c.opts; const std::size_t ts = g.pick(std::vector<std::size_t>{1, 2, 3, 4, 8, 16, 255});
            out = reference("blosc", o, p, nb, ts, 0); how = "type size " + std::to_string(ts);
        } else if(c.name == "zlib" || c.name == "gzip") {
            z_stream zs; std::memset(&zs, 0, sizeof(zs));
            const int level = int(g.range(0, 9)), bits = int(g.range(9, 15)), mem = int(g.range(1, 9)), strat = int(g.draw(5));
            how = "zlib level " + std::to_string(level) + " window " + std::to_string(bits) + " memory " + std::to_string(mem) + " strategy " + std::to_string(strat);
            PBT_CHECK(deflateInit2(&zs, level, Z_DEFLATED, c.name == "zlib" ? bits : 16 + bits, mem, strat) == Z_OK, "harness");
            gz_header h; std::memset(&h, 0, sizeof(h));
            Bytef extra[5] = {1, 2, 3, 4, 5};
            if(c.name == "gzip" && g.flip()) { h.name = (Bytef *) "some name"; h.comment = (Bytef *) "comment"; h.extra = extra; h.extra_len = 5; h.hcrc = int(g.draw(2)); h.os = 255; h.time = 77; deflateSetHeader(&zs, &h); how += " header fields"; }
            out.resize(deflateBound(&zs, nb) + 4096 + 64 * (nb / 100 + 1));
            zs.next_in = (Bytef *) p; zs.next_out = (Bytef *) out.data(); zs.avail_out = out.size();
            const std::size_t step = g.flip() ? nb : 1 + g.draw(nb) + nb / 100;
            int r = Z_OK;
            for(std::size_t i = 0; i < nb; i += step) {
                zs.avail_in = std::min(step, nb - i);
                const bool last = i + step >= nb;
                r = deflate(&zs, last ? Z_FINISH : (g.flip() ? Z_FULL_FLUSH : Z_SYNC_FLUSH));
            }
            const auto total = zs.total_out; deflateEnd(&zs);
            PBT_CHECK(r == Z_STREAM_END, "harness: deflate");
            out.resize(total);
        } else if(c.name == "bzip2") {
            out.resize(nb + nb / 50 + 700);
            unsigned len = out.size();
            const int wf = int(g.draw(251));
            how = "work factor " + std::to_string(wf);
            PBT_CHECK(BZ2_bzBuffToBuffCompress(out.data(), &len, (char *) p, nb, std::get<int>(c.opts.at("level")), 0, wf) == BZ_OK, "harness");
            out.resize(len);
        } else if(c.name == "lz4") {
            out.resize(LZ4_compressBound(nb));
            const int kindc = int(g.draw(2)), l = int(g.range(1, 12));
            how = (kindc ? "hc " : "fast ") + std::to_string(l);
            const int r = kindc ? LZ4_compress_HC(p, out.data(), nb, out.size(), l) : LZ4_compress_fast(p, out.data(), nb, out.size(), l);
            PBT_CHECK(r > 0, "harness");
            out.resize(r);
        } else if(c.name == "xz") {
            lzma_options_lzma o; lzma_lzma_preset(&o, uint32_t(g.draw(4)) | (g.flip() ? LZMA_PRESET_EXTREME : 0));
            lzma_options_delta d; std::memset(&d, 0, sizeof(d)); d.type = LZMA_DELTA_TYPE_BYTE; d.dist = 1 + g.draw(16);
            lzma_filter f[4]; int k = 0;
            if(g.flip(1, 3)) { f[k++] = {LZMA_FILTER_DELTA, &d}; how += "delta "; }
            f[k++] = {LZMA_FILTER_LZMA2, &o}; f[k] = {LZMA_VLI_UNKNOWN, nullptr};
            const auto chk = g.pick(std::vector<lzma_check>{LZMA_CHECK_NONE, LZMA_CHECK_CRC32, LZMA_CHECK_CRC64, LZMA_CHECK_SHA256});
            how += "check " + std::to_string(int(chk));
            out.resize(lzma_stream_buffer_bound(nb) + 100000);
            lzma_stream s = LZMA_STREAM_INIT;
            PBT_CHECK(lzma_stream_encoder(&s, f, chk) == LZMA_OK, "harness");
            const std::size_t step = g.flip() ? nb : 1 + g.draw(nb) + nb / 20;
            s.next_out = (uint8_t *) out.data(); s.avail_out = out.size(); s.next_in = (const uint8_t *) p;
            lzma_ret r = LZMA_OK;
            for(std::size_t i = 0; i < nb; i += step) {
                s.avail_in = std::min(step, nb - i);
                r = lzma_code(&s, i + step >= nb ? LZMA_FINISH : LZMA_FULL_FLUSH);
            }
            PBT_CHECK(r == LZMA_STREAM_END, "harness: xz " << r);
            out.resize(s.total_out); lzma_end(&s);
        } else {
            auto * cc = ZSTD_createCCtx();
            const int level = int(g.range(-5, 9)); const bool sum = g.flip(), size = g.flip();
            ZSTD_CCtx_setParameter(cc, ZSTD_c_compressionLevel, level);
            ZSTD_CCtx_setParameter(cc, ZSTD_c_checksumFlag, sum);
            ZSTD_CCtx_setParameter(cc, ZSTD_c_contentSizeFlag, size);
            if(g.flip(1, 4)) ZSTD_CCtx_setParameter(cc, ZSTD_c_windowLog, int(g.range(10, 20)));
            how = "level " + std::to_string(level) + " checksum " + std::to_string(sum) + " size " + std::to_string(size);
            out.resize(ZSTD_compressBound(nb) + 100000);
            ZSTD_outBuffer o{out.data(), out.size(), 0};
            const std::size_t step = g.flip() ? nb : 1 + g.draw(nb) + nb / 20;
            std::size_t r = 0;
            for(std::size_t i = 0; i < nb; i += step) {
                ZSTD_inBuffer ib{p + i, std::min(step, nb - i), 0};
                r = ZSTD_compressStream2(cc, &o, &ib, i + step >= nb ? ZSTD_e_end : ZSTD_e_flush);
            }
            ZSTD_freeCCtx(cc);
            PBT_CHECK(r == 0, "harness: zstd");
            out.resize(o.pos);
        }
        g.desc << show(c) << " made by another encoder (" << how << "), " << n << " x " << sizeof(T) << " bytes, " << kind;
        if(out.empty()) return;
        g.label(c.name);
        g.nontrivial = n > 1 && kind != "zero";
        auto comp = make<T>(c.name, c.opts);
        checkRoundtrip<T>(g, c, *comp, in, out);
        // truncated, or of another size: never partial data
        if(g.flip(1, 3) && nb > 1) {
            g.label("wrong size");
            const bool cut = g.flip();
            Bytes bad(out);
            std::size_t want = n;
            if(cut) bad.resize(g.draw(out.size()));
            else { want = 1 + g.draw(2 * n); if(want == n) want = n + 1; }
            Exact<T> back(want, 0x5A);
            bool ok = true;
            try {
                std::unique_ptr<char[]> e(new char[bad.size()]);
                if(!bad.empty()) std::memcpy(e.get(), bad.data(), bad.size());
                comp->decompress(e.get(), bad.size(), back.p.get(), want);
            } catch(const std::exception &) { ok = false; }
            // a cut trailer may go unnoticed by the library, but then the data must be there
            PBT_CHECK(!ok || (cut && std::memcmp(back.p.get(), p, nb) == 0), show(c) << " (" << how << "): " << (cut ? "truncated to " + std::to_string(bad.size()) + " of " + std::to_string(out.size()) + " bytes" : "asked for " + std::to_string(want) + " elements instead of " + std::to_string(n)) << ", but decompression reports success");
        }
    });
}

// options through the metadata: defaults, what is written, and what is read back
PBT_TEST(metadata) {
    const int fmt = int(g.draw(3));    // n5, zarr v2, zarr v3
    std::vector<std::string> names = fmt == 0 ? std::vector<std::string>{"raw", "blosc", "gzip", "bzip2", "lz4", "xz", "zstd"}
                                   : fmt == 1 ? std::vector<std::string>{"raw", "blosc", "zlib", "gzip", "bzip2", "zstd"}
                                              : std::vector<std::string>{"raw", "blosc", "gzip", "zstd"};
    const bool bogus = g.flip(1, 8);
    Codec c;
    if(bogus) { c.name = g.pick(std::vector<std::string>{"", "lzma", "GZIP", "gzip ", "bz2x", "null", "blosc2", "deflate", "zst", "snappy"}); }
    else c = g.flip(1, 10) ? Codec{"raw", {}} : genCodec(g, std::vector<std::string>(names.begin() + 1, names.end()));
    // leave some options to the defaults
    Opts given;
    for(auto & [k, v] : c.opts) if(k != "useZlib" && g.flip(2, 3)) given[k] = v;
    const std::string dtype = g.pick(std::vector<std::string>{"uint8", "int16", "float32", "float64"});
    z5::DatasetMetadata m;
    g.desc << "format " << fmt << " " << dtype << " " << show({c.name, given});
    g.label(c.name); g.label("unknown codec", bogus);
    g.nontrivial = true;
    bool ok = true;
    try { z5::createDatasetMetadata(dtype, {10, 10}, {5, 5}, fmt > 0, c.name, given, 0, fmt == 2 ? "/" : ".", m, fmt == 2 ? 3 : 2); }
    catch(const std::exception &) { ok = false; }
    if(bogus) { PBT_CHECK(!ok, "a compressor named '" << c.name << "' is accepted"); return; }
    PBT_CHECK(ok, "refused");
    for(auto & [k, v] : given) PBT_CHECK(m.compressionOptions.count(k) && m.compressionOptions.at(k) == v, "the metadata does not hold the requested option " << k);
    nlohmann::json j; m.toJson(j);
    nlohmann::json back = nlohmann::json::parse(j.dump());
    z5::DatasetMetadata r; r.fromJson(back, fmt > 0);
    PBT_CHECK(r.compressor == m.compressor, "another compressor is read back from " << j.dump());
    for(auto & [k, v] : m.compressionOptions) {
        if(k == "nthreads" && fmt > 0) continue;   // not part of the zarr metadata
        PBT_CHECK(r.compressionOptions.count(k) && r.compressionOptions.at(k) == v, "option " << k << " is lost or changed in " << j.dump());
    }
    nlohmann::json j2; if(fmt == 0 && r.compressor == tp::raw) {} r.toJson(j2);
    PBT_CHECK(j2 == j, "written again it is " << j2.dump() << " instead of " << j.dump());
    if(c.name == "raw") return;
    // both encode in the same way
    Exact<int16_t> in(1 + g.draw(3000)); std::string kind;
    fillBytes(g, (char *) in.p.get(), in.bytes(), kind);
    auto a = make<int16_t>(c.name, m.compressionOptions), b = make<int16_t>(c.name, r.compressionOptions);
    Bytes x, y; a->compress(in.p.get(), x, in.n); b->compress(in.p.get(), y, in.n);
    const auto nt = m.compressionOptions.find("nthreads");
    if(nt == m.compressionOptions.end() || std::get<int>(nt->second) == 1) PBT_CHECK(x == y, "the encoder of the re-opened dataset gives other bytes");
    checkRoundtrip<int16_t>(g, c, *b, in, x);
    Codec eff{c.name, m.compressionOptions};
    if(fmt == 2 || fmt == 0) eff.name = c.name == "zlib" ? "gzip" : c.name;
    checkApplied(g, eff, x, (const char *) in.p.get(), in.bytes(), 2);
}

// chunks beyond the 32 bit of some library interfaces: exact, or refused
static void hugeCase(pbt::Gen & g, uint64_t pickName, uint64_t extra) {
    const std::vector<std::string> names(std::vector<std::string>{
#ifdef ZV_STOCK_ZLIB
        "zlib", "gzip",
#else
        "bzip2",
#endif
    });
    const std::string name = names[pickName % names.size()];
    const std::size_t n = (1ull << 32) + 1 + extra;
    Codec c{name, {{"level", 1}, {"useZlib", name == "zlib"}}};
    g.desc << show(c) << ", " << n << " bytes";
    g.label(name); g.nontrivial = true;
    char * in = static_cast<char *>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    PBT_CHECK(in != MAP_FAILED, "harness: no memory");
    struct Unmap { char * p; std::size_t n; ~Unmap() { munmap(p, n); } } u{in, n};
    for(std::size_t i = 0; i < 4000; ++i) { in[n - 1 - i] = char(i * 7); in[i] = char(i); in[(1ull << 32) - 2000 + i % 2000] = char(i * 5); }
    auto comp = make<uint8_t>(name, c.opts);
    Bytes out;
    try { comp->compress((const uint8_t *) in, out, n); }
    catch(const std::exception & e) { g.label("refused"); return; }
    char * back = static_cast<char *>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    PBT_CHECK(back != MAP_FAILED, "harness: no memory");
    Unmap u2{back, n};
    try { comp->decompress(out.data(), out.size(), (uint8_t *) back, n); }
    catch(const std::exception & e) { PBT_CHECK(false, name << ": compression of " << n << " bytes reports success, but the result does not decompress: " << e.what()); }
    PBT_CHECK(std::memcmp(back, in, n) == 0, name << ": " << n << " bytes are not the same after compression and decompression");
}

// in a child process; the quick tier stops it after a while (what was decided until then counts)
PBT_TEST(huge) {
    const char * tier = getenv("VERIF_TIER");
    const int deadline = tier && std::string(tier) == "thorough" ? 600 : 25;
    const uint64_t pickName = g.draw(2), extra = g.draw(3000000);
    int fd[2];
    PBT_CHECK(pipe(fd) == 0, "harness: pipe");
    std::cout.flush();
    const pid_t pid = fork();
    if(pid == 0) {
        std::string msg = "ok";
        g.journal = nullptr;
        try { hugeCase(g, pickName, extra); } catch(const std::exception & e) { msg = std::string("FAIL ") + e.what(); }
        msg += "\n" + g.desc.str();
        (void) !write(fd[1], msg.data(), msg.size());
        _exit(0);
    }
    close(fd[1]);
    struct pollfd pf{fd[0], POLLIN, 0};
    const int r = poll(&pf, 1, deadline * 1000);
    std::string msg(4000, 0);
    if(r > 0) { const auto k = read(fd[0], msg.data(), msg.size()); msg.resize(std::max<ssize_t>(k, 0)); }
    else { kill(pid, SIGKILL); msg = "ok\nstopped at the deadline"; g.label("stopped at the deadline"); }
    close(fd[0]);
    int status; waitpid(pid, &status, 0);
    g.nontrivial = true;
    g.desc << msg;
    PBT_CHECK(!msg.empty(), "the process died with status " << status);
    PBT_CHECK(msg.rfind("ok", 0) == 0, msg);
}

PBT_MAIN

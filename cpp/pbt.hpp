// A small property-based testing engine: every random decision of a test is a number drawn from a
// Gen; the sequence of numbers is the case.  Shrinking edits the sequence, replay feeds it back.
// The sequence is mirrored into a memory-mapped journal, so that a crash leaves its case behind.
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include "nlohmann/json.hpp"

namespace pbt {

struct Fail : std::runtime_error {
    using std::runtime_error::runtime_error;
};

struct Journal {
    int fd = -1;
    char * p = nullptr;
    std::size_t cap = 1 << 20, used = 0;
    void open(const std::string & path) {
        fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if(fd < 0 || ftruncate(fd, cap) != 0) { std::perror("journal"); std::exit(2); }
        p = static_cast<char *>(mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        if(p == MAP_FAILED) { std::perror("journal"); std::exit(2); }
        std::memset(p, ' ', cap);
        reset();
    }
    void reset() {
        if(!p) return;
        std::memset(p, ' ', used + 2);
        std::memcpy(p, "{\"choices\":[]}", 14);
        used = 12;  // position after '['
        futimens(fd, nullptr);
    }
    void add(uint64_t v) {
        if(!p || used + 40 > cap) return;
        char buf[40];
        const int n = std::snprintf(buf, sizeof(buf), "%s%llu]}", used > 12 ? "," : "", static_cast<unsigned long long>(v));
        std::memcpy(p + used, buf, n);
        used += n - 2;
    }
};

struct Gen {
    std::vector<uint64_t> choices;
    std::size_t pos = 0;
    bool replay = false, extend = false;   // extend: draw beyond the end of a replayed sequence
    std::mt19937_64 rng;
    Journal * journal = nullptr;
    std::set<std::string> labels;
    bool nontrivial = false;
    std::ostringstream desc;      // human readable form of the case
    std::string scratch;          // fresh directory path of this case (not created)

    // uniform in [0, n)
    uint64_t draw(uint64_t n) {
        if(n == 0) n = 1;
        uint64_t v;
        if(replay && (!extend || pos < choices.size())) {
            v = pos < choices.size() ? choices[pos] % n : 0;
            if(pos < choices.size()) choices[pos] = v; else choices.push_back(v);
        } else {
            v = n > (1ull << 62) ? rng() % n : std::uniform_int_distribution<uint64_t>(0, n - 1)(rng);
            choices.push_back(v);
        }
        ++pos;
        if(journal) journal->add(v);
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo + 1))); }
    bool flip(int num = 1, int den = 2) { return draw(den) >= static_cast<uint64_t>(den - num); }  // shrinks to false
    uint64_t bits() {  // any 64 bit value, biased to interesting ones
        switch(draw(6)) {
            case 0: return draw(16);
            case 1: return draw(1u << 16);
            case 2: return draw(1ull << 32);
            case 3: return draw(~0ull);
            case 4: return ~0ull - draw(16);
            default: return (1ull << draw(64)) + draw(3) - 1;
        }
    }
    template<class T> const T & pick(const std::vector<T> & v) { return v[draw(v.size())]; }
    void label(const std::string & s, bool c = true) { if(c) labels.insert(s); }
};

#define PBT_CHECK(cond, msg) do { if(!(cond)) { std::ostringstream _o; _o << msg << "  [" #cond " at line " << __LINE__ << "]"; throw pbt::Fail(_o.str()); } } while(0)

using Test = std::function<void(Gen &)>;
inline std::map<std::string, Test> & tests() { static std::map<std::string, Test> t; return t; }
struct Register { Register(const char * n, Test t) { tests()[n] = t; } };
#define PBT_TEST(name) static void pbt_##name(pbt::Gen & g); static pbt::Register pbt_reg_##name(#name, pbt_##name); static void pbt_##name(pbt::Gen & g)

struct Outcome { bool ok; std::string msg; };

// Coverage guidance (builds with -fsanitize-coverage=inline-8bit-counters and -DPBT_COVERAGE): choice
// sequences that reach something new are kept and mutated.
struct Guide {
    struct Range { unsigned char * b, * e; };
    static std::vector<Range> & ranges() { static std::vector<Range> r; return r; }
    std::vector<std::vector<unsigned char>> seen;
    std::vector<std::vector<uint64_t>> corpus;
    uint64_t features = 0, fromMutation = 0;
    static bool available() { return !ranges().empty(); }
    void before() {
        for(auto & r : ranges()) std::memset(r.b, 0, r.e - r.b);
    }
    // whether this execution did something new: an edge, or an edge in another order of magnitude
    bool after() {
        bool fresh = false;
        if(seen.empty()) for(auto & r : ranges()) seen.emplace_back(r.e - r.b, 0);
        for(std::size_t k = 0; k < ranges().size(); ++k) {
            const auto r = ranges()[k];
            for(unsigned char * p = r.b; p < r.e; ++p) {
                if(!*p) continue;
                const unsigned char c = *p;
                const unsigned char bit = c < 4 ? c == 1 ? 1 : c == 2 ? 2 : 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128;
                auto & s = seen[k][p - r.b];
                if(!(s & bit)) { s |= bit; ++features; fresh = true; }
            }
        }
        return fresh;
    }
    std::vector<uint64_t> mutate(std::mt19937_64 & rng) {
        auto below = [&](uint64_t n) { return n ? rng() % n : 0; };
        // the younger half of the corpus is preferred
        const std::size_t half = corpus.size() / 2;
        auto c = corpus[rng() & 1 ? half + below(corpus.size() - half) : below(corpus.size())];
        auto value = [&](uint64_t old) -> uint64_t {
            switch(below(6)) {
                case 0: return below(8);
                case 1: return old + 1;
                case 2: return old ? old - 1 : 0;
                case 3: return below(256);
                case 4: { const auto & o = corpus[below(corpus.size())]; return o.empty() ? 0 : o[below(o.size())]; }
                default: return rng() >> 1;
            }
        };
        for(uint64_t k = 1 + below(4); k > 0; --k) {
            const std::size_t n = c.size(), i = below(n), len = 1 + below(std::min<std::size_t>(n - std::min(n, i), 8));
            switch(below(6)) {
                case 0: case 1: if(n) c[i] = value(c[i]); break;
                case 2: if(n) c.erase(c.begin() + i, c.begin() + std::min(n, i + len)); break;
                case 3: c.insert(c.begin() + i, value(0)); break;
                case 4: if(n && n < 4000) { const std::vector<uint64_t> part(c.begin() + i, c.begin() + std::min(n, i + len)); c.insert(c.begin() + below(n), part.begin(), part.end()); } break;
                default: {
                    const auto & o = corpus[below(corpus.size())];
                    c.resize(i);
                    if(i < o.size()) c.insert(c.end(), o.begin() + i, o.end());
                }
            }
        }
        return c;
    }
};

inline Outcome execute(const Test & t, Gen & g) {
    std::error_code ec;
    Outcome o{true, ""};
    try { t(g); }
    catch(const std::exception & e) { o = {false, e.what()}; }
    catch(...) { o = {false, "unknown exception"}; }
    if(!g.scratch.empty()) std::filesystem::remove_all(g.scratch, ec);
    return o;
}

inline std::vector<uint64_t> shrink(const Test & t, std::vector<uint64_t> best, std::string & msg, const std::string & scratch, double seconds) {
    const auto t0 = std::chrono::steady_clock::now();
    auto timeleft = [&]{ return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < seconds; };
    int n = 0;
    auto bad = [&](const std::vector<uint64_t> & c, std::vector<uint64_t> & norm) {
        Gen g; g.replay = true; g.choices = c; g.scratch = scratch + "/k" + std::to_string(n++);
        const auto o = execute(t, g);
        if(!o.ok) { g.choices.resize(std::min(g.pos, g.choices.size())); norm = g.choices; msg = o.msg; }
        return !o.ok;
    };
    std::vector<uint64_t> norm;
    bool progress = true;
    while(progress && timeleft()) {
        progress = false;
        for(std::size_t len = std::max<std::size_t>(1, best.size() / 2); len >= 1 && timeleft(); len /= 2) {
            for(std::size_t i = 0; i + len <= best.size() && timeleft();) {
                auto c = best; c.erase(c.begin() + i, c.begin() + i + len);
                if(bad(c, norm) && norm.size() < best.size()) { best = norm; progress = true; } else { ++i; }
            }
            if(len == 1) break;
        }
        for(std::size_t i = 0; i < best.size() && timeleft(); ++i) {
            if(best[i] == 0) continue;
            for(uint64_t v : {uint64_t(0), best[i] / 2, best[i] - 1}) {
                auto c = best; c[i] = v;
                if(bad(c, norm) && norm.size() <= best.size() && norm != best) { best = norm; progress = true; break; }
                if(i >= best.size() || best[i] == 0) break;
            }
        }
    }
    return best;
}

inline int main_(int argc, char ** argv) {
    if(argc < 3) { std::cerr << "usage: run|replay|list TEST ...\n"; return 2; }
    const std::string cmd = argv[1], name = argv[2];
    std::map<std::string, std::string> opt;
    for(int i = 3; i + 1 < argc; i += 2) opt[std::string(argv[i]).substr(2)] = argv[i + 1];
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if(!tests().count(name)) { std::cerr << "no test " << name << "\n"; return 2; }
    const Test t = tests()[name];
    const std::string scratch = opt.count("scratch") ? opt["scratch"] : "/tmp";
    if(cmd == "replay") {
        nlohmann::json j; std::ifstream(opt["case"]) >> j;
        Gen g; g.replay = true; g.choices = j["case"]["choices"].get<std::vector<uint64_t>>(); g.scratch = scratch + "/r";
        const auto o = execute(t, g);
        std::cout << g.desc.str() << "\n";
        if(!o.ok) { std::cout << "FAILED: " << o.msg << std::endl; _exit(1); }
        std::cout.flush();
        _exit(0);
    }
    const uint64_t seed = std::stoull(opt["seed"]);
    const uint64_t count = std::stoull(opt["count"]);
    const double budget = std::stod(opt["budget"]);
    Journal journal; journal.open(opt["journal"]);
    const auto t0 = std::chrono::steady_clock::now();
    uint64_t evals = 0;
    std::set<std::string> hashes; std::map<std::string, uint64_t> labels;
    nlohmann::json samples = nlohmann::json::array(), fail = nullptr;
    Guide guide;
    const bool guided = opt.count("guided") && opt["guided"] == "1" && Guide::available();
    for(uint64_t i = 0; i < count; ++i) {
        if(std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) break;
        journal.reset();
        Gen g; g.journal = &journal; g.scratch = scratch + "/c" + std::to_string(i);
        std::seed_seq ss{static_cast<uint32_t>(seed), static_cast<uint32_t>(seed >> 32), static_cast<uint32_t>(i)};
        g.rng.seed(ss);
        bool mutated = false;
        if(guided) {
            if(guide.corpus.size() > 3 && g.rng() % 3) { g.choices = guide.mutate(g.rng); g.replay = g.extend = mutated = true; }
            guide.before();
        }
        auto o = execute(t, g);
        ++evals;
        if(guided) {
            const bool fresh = guide.after();
            g.choices.resize(std::min(g.pos, g.choices.size()));
            if(fresh && g.choices.size() < 5000) guide.corpus.push_back(g.choices);
            g.label("coverage-guided:mutated", mutated);
            g.label("coverage-guided:new-coverage", fresh);
        }
        for(auto & l : g.labels) ++labels[l];
        if(!o.ok) {
            std::string msg = o.msg;
            auto best = shrink(t, g.choices, msg, scratch, 20);
            Gen d; d.replay = true; d.choices = best; d.scratch = scratch + "/d"; execute(t, d);
            fail = {{"case", {{"choices", best}}}, {"error", msg + "\n" + d.desc.str()}};
            break;
        }
        if(g.nontrivial) {
            uint64_t h = 1469598103934665603ull;
            for(auto c : g.choices) { h = (h ^ c) * 1099511628211ull; h ^= h >> 29; }
            char buf[20]; std::snprintf(buf, sizeof(buf), "%016llx", (unsigned long long)h);
            if(hashes.insert(buf).second && samples.size() < 3) samples.push_back(g.desc.str().substr(0, 600));
        }
    }
    nlohmann::json out = {{"evals", evals}, {"hashes", hashes}, {"labels", labels}, {"samples", samples}, {"fail", fail}, {"skipped", 0}};
    std::ofstream(opt["out"]) << out.dump(-1, ' ', true, nlohmann::json::error_handler_t::replace);
    std::cout.flush();
    _exit(0);
}

}  // namespace pbt

#ifdef PBT_COVERAGE
#define PBT_COVERAGE_HOOK extern "C" void __sanitizer_cov_8bit_counters_init(char * b, char * e) { \
    if(b < e) pbt::Guide::ranges().push_back({reinterpret_cast<unsigned char *>(b), reinterpret_cast<unsigned char *>(e)}); }
#else
#define PBT_COVERAGE_HOOK
#endif
#define PBT_MAIN PBT_COVERAGE_HOOK int main(int argc, char ** argv) { return pbt::main_(argc, argv); }

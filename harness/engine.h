// Choice-sequence property-based testing engine.
//
// A law is a function void(Gen&). Every random decision it makes goes through Gen, which records
// it as an integer "choice". The same law is driven by three sources:
//   - a seeded PRNG (random generation),
//   - a recorded list of choices (replay and shrinking),
//   - a byte string (coverage-guided fuzzing, see fuzz_main.cpp).
// Shrinking works on the list of choices: smaller / shorter lists give simpler inputs, because the
// generators map small choices to simple values.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure : std::exception {
    std::string msg;
    explicit Failure(std::string m) : msg(std::move(m)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};
struct Discard : std::exception {
    std::string why;
    explicit Discard(std::string w) : why(std::move(w)) {}
    const char* what() const noexcept override { return why.c_str(); }
};

class Gen {
public:
    enum Mode { Random, Replay, Bytes };
    Mode mode = Random;
    uint64_t rng = 0;
    std::vector<uint64_t> choices;      // recorded
    const std::vector<uint64_t>* script = nullptr;
    size_t pos = 0;
    const uint8_t* bytes = nullptr;
    size_t nbytes = 0;
    // shared-memory mirror of the recorded choices (so that a crash can be replayed)
    volatile uint64_t* mirror = nullptr;
    size_t mirrorCap = 0;

    bool nontriv = false;
    std::vector<const char*> tags;
    bool wantLog = false;
    std::ostringstream log;
    bool crossMode = false;

    void reset() {
        choices.clear(); pos = 0; nontriv = false; tags.clear();
        log.str(""); log.clear();
        if (mirror) mirror[0] = 0;
    }
    uint64_t next64() {            // splitmix64
        uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [0, bound)
    uint64_t draw(uint64_t bound) {
        if (bound == 0) bound = 1;
        uint64_t v = 0;
        switch (mode) {
        case Random: v = (uint64_t)(((unsigned __int128)next64() * bound) >> 64); break;
        case Replay: v = pos < script->size() ? (*script)[pos] : 0; pos++; if (v >= bound) v = bound - 1; break;
        case Bytes: {
            int n = bound <= 256 ? 1 : bound <= 65536 ? 2 : bound <= (1ull << 32) ? 4 : 7;
            for (int i = 0; i < n; i++) { v = (v << 8) | (pos < nbytes ? bytes[pos] : 0); pos++; }
            v %= bound;
            break; }
        }
        choices.push_back(v);
        if (mirror && choices.size() < mirrorCap) { mirror[choices.size()] = v; mirror[0] = choices.size(); }
        return v;
    }
    int integer(int lo, int hi) { return lo + (int)draw((uint64_t)((int64_t)hi - lo + 1)); }
    bool boolean() { return draw(2) == 1; }
    // true with probability num/den; shrinks to false
    bool chance(int num, int den) { return draw(den) >= (uint64_t)(den - num); }
    // index by weights; shrinks to index 0
    int weighted(std::initializer_list<int> w) {
        int tot = 0; for (int x : w) tot += x;
        int r = (int)draw(tot), i = 0;
        for (int x : w) { if (r < x) return i; r -= x; i++; }
        return 0;
    }
    double unit() { return (double)draw(1ull << 30) / (double)(1ull << 30); }   // [0,1)
    // real in [lo,hi]; mixes a coarse grid and full resolution
    double real(double lo, double hi) {
        int k = (int)draw(3);
        if (k == 0) return lo + (hi - lo) * (double)draw(9) / 8.0;
        return lo + (hi - lo) * unit();
    }
    // signed real, shrinks to 0
    double coord(double mag) {
        int k = (int)draw(4);
        if (k == 0) { int v = (int)draw(21); int s = (v & 1) ? -(v + 1) / 2 : v / 2; return s * mag / 10.0; }
        double v = unit() * mag; return draw(2) ? -v : v;
    }
    void nontrivial(bool b = true) { nontriv = nontriv || b; }
    void tag(const char* t) { tags.push_back(t); }
    void tagIf(bool c, const char* t) { if (c) tags.push_back(t); }
    template <class F> void note(F f) { if (wantLog) { f(log); } }
};

struct Law {
    const char* name;
    long quick;       // cases in the quick tier
    long thorough;    // cases in the thorough tier
    std::function<void(Gen&)> fn;
};
struct Finding {      // a recorded, unrepaired genuine defect: a fixed input
    const char* key;  // must be listed in known_findings.txt
    std::function<void()> fn;   // throws Failure while the defect is present
};
std::vector<Law>& laws();
std::vector<Finding>& findings();
struct RegLaw { RegLaw(const char* n, long q, long t, std::function<void(Gen&)> f) { laws().push_back({n, q, t, std::move(f)}); } };
struct RegFinding { RegFinding(const char* k, std::function<void()> f) { findings().push_back({k, std::move(f)}); } };
extern const char* RULE;   // defined by each property file

[[noreturn]] inline void fail(const std::string& m) { throw Failure(m); }
[[noreturn]] inline void discard(const char* w) { throw Discard(w); }

} // namespace pbt

#define LAW(name, quick, thorough) \
    static void law_##name(pbt::Gen& g); \
    static pbt::RegLaw reg_##name(#name, quick, thorough, law_##name); \
    static void law_##name(pbt::Gen& g)
#define FINDING(key) \
    static void finding_##key(); \
    static pbt::RegFinding regf_##key(#key, finding_##key); \
    static void finding_##key()
#define REQUIRE(cond, msg) do { if (!(cond)) { std::ostringstream os_; os_.precision(15); os_ << #cond << " violated: " << msg << " [" << __FILE__ << ":" << __LINE__ << "]"; pbt::fail(os_.str()); } } while (0)

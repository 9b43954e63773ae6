// A small property-testing engine on top of rapidcheck's generators and shrinkers.
// Every check is a list of stages; a stage is a set of fields (the generator), optional strata
// (fixed field values that are covered systematically) and a body (the oracle).
// Each case is a pure function of (VERIF_SEED, stage, stratum, chunk, position in the chunk).
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace eng {

struct Fail { std::string why; };
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

struct Range { int weight; int64_t lo, hi; };   // inclusive
struct Field {
    std::string name;
    std::vector<Range> ranges;
    int maxlen = -1;          // < 0: one value, otherwise a list of at most maxlen values
};
Field num(const std::string &name, int64_t lo, int64_t hi);
Field num(const std::string &name, std::vector<Range> ranges);
Field list(const std::string &name, int maxlen, std::vector<Range> ranges);
Field seed(const std::string &name);              // 48 random bits, shrinks to 0

struct Case {
    std::map<std::string, std::vector<int64_t>> v;
    int64_t operator[](const std::string &k) const;             // single value
    const std::vector<int64_t> &lst(const std::string &k) const;
    std::string str() const;
    static Case parse(const std::string &s);
};

// What a body reports about a case.
struct Ctx {
    bool nontrivial = false;
    std::map<std::string, uint64_t> labels;
    std::string sample;        // optional extra text for samples
    bool replaying = false;
    bool skipped = false;      // precondition of the stage is not given on this tree
    void label(const std::string &l, uint64_t n = 1) { labels[l] += n; }
};

using Fixed = std::map<std::string, int64_t>;
struct Stage {
    std::string name;
    std::vector<Field> fields;
    std::vector<Fixed> strata;          // empty: one stratum without fixed values
    int cases = 1;                      // per stratum and tier (set by the check from the tier)
    int chunk = 0;                      // cases per work unit (0: all cases of the stratum)
    std::function<void(const Case &, Ctx &)> body;
    int workers = 0;                    // limit on parallel workers for this stage (0: all)
    int max_shrinks = 400;
    double max_shrink_s = 40;
    double hang_s = 240;                // a single case never takes that long on the correct tree
    std::string rule;
};

struct Options {
    std::string id;
    std::string tier = "quick";
    uint64_t seed = 1;
    bool thorough = false;
    std::string work;                   // scratch folder of this run
    std::map<std::string, std::string> args;   // --key=value options for the check
};
extern Options opt;

// Implemented by each check.
std::vector<Stage> stages();
void worker_init();                     // called once in every worker before any case (may be empty)

// Deterministic byte expansion of a generated seed (so cases stay small and replayable).
struct Bytes {
    uint64_t s;
    explicit Bytes(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    void fill(void *p, size_t n);
    std::vector<uint8_t> get(size_t n) { std::vector<uint8_t> v(n); if (n) fill(v.data(), n); return v; }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};
// bytes that programs are tempted to overlook at the end (or start) of data, or random ones
inline std::vector<uint8_t> odd_bytes(Bytes &b) {
    static const char *s[] = {"\n", "\r\n", " ", "\t", "\n\n", "\r", "\x1a", "\x04", "=", "#", "\xef\xbb\xbf"};
    uint64_t k = b.below(20);
    if (k < 11) { std::string q = s[k]; return std::vector<uint8_t>(q.begin(), q.end()); }
    if (k < 15) { static const uint8_t f[] = {0, 0xff, 0x20, 0x0a}; static const size_t n[] = {1, 2, 3, 4, 7, 8, 16, 32, 64, 512}; return std::vector<uint8_t>(n[b.below(10)], f[k - 11]); }
    return b.get(1 + b.below(20));
}
uint64_t mix(uint64_t a, uint64_t b);
std::string hex(const void *p, size_t n, size_t max = 24);

} // namespace eng

// Driver core: sharding, crash monitor, counters, evidence records.
#ifndef VTCORE_HPP
#define VTCORE_HPP
#include "vt.hpp"
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <cstdio>
#include <cstdlib>
#include <cstring>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x = 1) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long lo, long hi) { return lo + (long)below((uint64_t)(hi - lo + 1)); }
    bool one_in(unsigned n) { return below(n) == 0; }
    u128 bits(int n)
    {
        if (n <= 0) return 0;
        u128 r = ((u128)next() << 64) | next();
        return n >= 128 ? r : r & ((((u128)1) << n) - 1);
    }
};

std::string hex(u128 v);
u128 maskw(int n);
uint64_t hash64(const u128 *p, int n, uint64_t seed);

struct Ctx {
    const VtEntry *e;
    std::string name;             // op<params>
    Rng rng;
    double scale;                 // case-count multiplier of the tier
    int tier;                     // 0 quick 1 thorough
    // counters (whole shard)
    uint64_t evals, distinct;
    uint64_t viols, viols_entry, crashes_entry;
    std::map<std::string, uint64_t> buckets;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> vkeys;
    // per entry distinct set
    std::vector<uint64_t> tab;
    uint64_t tabn;
    int sample_budget;

    void begin(const VtEntry *x, uint64_t seed);
    void end();
    bool stop() const { return viols_entry >= 12 || crashes_entry >= 12; }
    // runs the real code under the crash monitor; false (and a violation is recorded) if it died
    bool call(const u128 *in, int nin, u128 *out);
    bool call_fn(void (*fn)(const u128 *, u128 *), const u128 *in, int nin, u128 *out);
    void violation(const std::string &key, const std::string &detail);
    // one monitored execution; nontrivial decides whether it may count as distinct_nontrivial
    void seen(const u128 *in, int nin, bool nontrivial);
    void bucket(const char *b, uint64_t n = 1) { buckets[b] += n; }
    void sample(const std::string &s);
    int exh(int dflt) const { return scale < 0.3 ? 11 : tier ? 22 : dflt; }     // operand bits up to which a driver enumerates
    uint64_t cases(double base) const { double n = base * scale; return n < 1 ? 1 : (uint64_t)n; }
};

// every driver defines this: checks one registry entry
void check_entry(Ctx &c);
#endif

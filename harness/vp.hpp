// Choice-sequence property-based testing engine.
//
// A property is a function of a choice source.  All randomness of a case is
// drawn from that source and recorded, so that a case is replayed, shrunk or
// driven by libFuzzer from the same byte string.
#pragma once
#include <stdexcept>
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <initializer_list>

namespace vp
{

struct Fail
{
    std::string msg;
};

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

#define VP_REQUIRE(cond, ...)      \
    do                             \
    {                              \
        if (!(cond))               \
            vp::fail(__VA_ARGS__); \
    } while (0)

inline uint64_t mix64(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

// Expands a seed that was itself drawn from the choice source.
struct Prng
{
    uint64_t s;
    explicit Prng(uint64_t seed) : s(seed) {}
    uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t x = s;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    uint64_t below(uint64_t n) { return n <= 1 ? 0 : (uint64_t)(((unsigned __int128)next() * n) >> 64); }
};

class Src
{
public:
    // random mode: draw from a generator and record into rec[0..cap)
    Src(uint64_t seed, uint64_t case_no, uint8_t *rec, size_t cap, volatile uint64_t *reclen);
    // replay mode: read data, zeros past its end
    Src(const uint8_t *data, size_t n);

    uint8_t byte();
    uint64_t u64();
    // uniform in [lo, hi]; shrinks towards lo
    uint64_t range(uint64_t lo, uint64_t hi);
    bool chance(unsigned num, unsigned den) { return range(0, den - 1) >= den - num; } // shrinks to false
    size_t weighted(std::initializer_list<unsigned> w);                               // shrinks to 0
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + range(0, v.size() - 1)); }
    // number of the case (used by enumerating parts); recorded like any choice
    uint64_t index(uint64_t limit);
    size_t used() const { return pos; }
    size_t remaining() const { return replay ? (pos < n ? n - pos : 0) : (size_t)-1; }

private:
    bool replay;
    Prng rng;
    uint64_t case_no = 0;
    const uint8_t *data = nullptr;
    size_t n = 0, pos = 0;
    uint8_t *rec = nullptr;
    size_t cap = 0;
    volatile uint64_t *reclen = nullptr;
    void put(uint8_t b);
};

class Ctx
{
public:
    void label(const std::string &l);
    void nontrivial(bool b) { nt = nt || b; }
    void key(uint64_t h) { k = mix64(k ^ h); }
    void key(const void *p, size_t n);
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3))); // shown for samples and on replay
    bool verbose = false;   // replaying a single case
    bool wants_notes = false;
    bool nt = false;
    uint64_t k = 0;
    uint64_t case_no = 0;
    std::string notes;
};

struct Part
{
    const char *name;
    void (*run)(Src &, Ctx &);
    uint64_t quick;    // number of cases
    uint64_t thorough; // number of cases
    int cpu_limit_s;   // per case, CPU time
    int workers;       // 0: all
    uint64_t data_limit_mb; // RLIMIT_DATA of a worker, 0: none
    const char *rule;  // what makes a case non-trivial
};

std::vector<Part> &parts();
struct Reg
{
    Reg(Part p) { parts().push_back(p); }
};
#define VP_PART(id, fn, ...) static vp::Reg vp_reg_##id(vp::Part{#id, fn, __VA_ARGS__})

// directory of this process for files of a case (created on demand)
const std::string &scratch();
uint64_t run_seed(); // VERIF_SEED of the run
bool thorough();

} // namespace vp

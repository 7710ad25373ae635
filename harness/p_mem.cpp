// C04: memory safety.  The oracle is the sanitizer (or the page protection);
// results are only touched.
#include "files.hpp"
#include "inter.hpp"
#include <sys/mman.h>
#include <unistd.h>
using namespace vp;
using sut::Bytes;

static const uint64_t WIDTH_MIN[5] = {0, 1ull << 31, 1ull << 39, 1ull << 47, 1ull << 55};

static volatile uint64_t sink;
static void touch(const sut::Result &r, size_t n)
{
    VP_REQUIRE(r.r && r.r->BWT, "no result");
    VP_REQUIRE(r.r->last <= n, "rank %lu is larger than the length %zu", (unsigned long)r.r->last, n);
    uint64_t x = 0;
    for (size_t i = 0; i <= n; i++)
        if (i != r.r->last)
            x += r.r->BWT[i];
    sink = x;
}
static void settings(Src &s, Ctx &c)
{
    inter::lib_reset();
    if (!s.chance(1, 10))
        inter::ht_size = s.chance(1, 2) ? 1 + s.range(0, 4) : 1 + s.range(0, 600);
    if (s.chance(1, 2))
        inter::hb_size = 32 + s.range(0, s.chance(1, 2) ? 40 : 1500);
    int w = s.weighted({4, 1, 1, 1, 1});
    inter::sa_raise = WIDTH_MIN[w];
    c.note("buckets %lu growth %lu width class %d", (unsigned long)inter::ht_size, (unsigned long)inter::hb_size, w);
    c.label("width class " + std::to_string(w));
}
static void c04_exh(Src &s, Ctx &c)
{
    static const std::vector<std::pair<int, int>> PQ = {{2, 11}, {3, 7}, {4, 5}, {256, 1}}, PT = {{2, 15}, {3, 10}, {4, 8}, {5, 6}, {256, 2}};
    auto &P = thorough() ? PT : PQ;
    inter::lib_reset();
    uint64_t i = s.index(0), tot = sut::enum_count(P);
    int k;
    Bytes t = sut::enumerated(i % tot, 0, P, &k);
    uint64_t h = mix64(i);
    sut::remap(t, k, h % 4);
    inter::ht_size = 1 + (h >> 8) % 7;
    if (h & 16)
        inter::hb_size = 32;
    inter::sa_raise = WIDTH_MIN[(i / tot) % 5];
    c.note("text %s width class %lu", ref::show(t).c_str(), (unsigned long)(i / tot) % 5);
    c.key(t.data(), t.size());
    c.key((i / tot) % 5);
    c.nontrivial(t.size() >= 3);
    touch(sut::call(t, h & 32), t.size());
}
VP_PART(c04_exh, c04_exh, 40000, 900000, 120, 0, 0, "all strings over small alphabets up to a length, each width; non-trivial: length >= 3");
static void c04_text(Src &s, Ctx &c)
{
    settings(s, c);
    Bytes t = gen::text(s, 20000, &c);
    c.nontrivial(gen::classify(t, c));
    touch(sut::call(t, s.chance(1, 2)), t.size());
}
VP_PART(c04_text, c04_text, 25000, 600000, 300, 0, 0, "structured texts up to 20000 bytes in exactly sized blocks, small tables, each width; non-trivial: at least two S* substrings");
static void c04_big(Src &s, Ctx &c)
{
    inter::lib_reset();
    Bytes t = gen::text(s, 150000, &c);
    inter::sa_raise = WIDTH_MIN[s.weighted({2, 1, 1, 1, 1})];
    c.nontrivial(gen::classify(t, c));
    touch(sut::call(t, s.chance(1, 2)), t.size());
}
VP_PART(c04_big, c04_big, 240, 5000, 600, 0, 0, "texts up to 150 kB, the real table, each width; non-trivial: at least two S* substrings");
static void c04_file(Src &s, Ctx &c)
{
    inter::lib_reset();
    inter::ht_size = 1 + s.range(0, 100);
    std::string d = fs_::fresh();
    size_t steps = 1 + s.range(0, 2);
    for (size_t k = 0; k < steps; k++)
    {
        Bytes t = s.chance(1, 8) ? Bytes() : gen::text(s, 6000, k ? nullptr : &c);
        std::string in = d + "/in", out = s.chance(1, 5) ? in : d + "/out";
        fs_::put(in, t);
        switch (s.weighted({8, 1, 1, 1, 1}))
        {
        case 1: in = d + "/missing"; break;
        case 2: in = d; break;
        case 3: out = d + "/missing/out"; break;
        case 4: out = d; break;
        default: break;
        }
        bool threw = false;
        try
        {
            flbwt::bwt_file(in.c_str(), out.c_str());
        }
        catch (std::exception &)
        {
            threw = true;
        }
        c.label(threw ? "call failed" : "call succeeded");
        c.nontrivial(t.size() >= 3);
    }
}
VP_PART(c04_file, c04_file, 12000, 250000, 300, 0, 0, "1-3 file transforms, failing ones included; non-trivial: a text of at least three bytes");

// --- production build: text in read-only pages that end at a guard page
static void c04_guard(Src &s, Ctx &c)
{
    settings(s, c);
    Bytes t = gen::text(s, 12000, &c);
    c.nontrivial(gen::classify(t, c));
    size_t pg = 4096, n = t.size(), pages = (n + 1 + pg - 1) / pg;
    uint8_t *m = (uint8_t *)mmap(nullptr, (pages + 2) * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    VP_REQUIRE(m != MAP_FAILED, "harness: mmap");
    struct Un
    {
        void *p;
        size_t n;
        ~Un() { munmap(p, n); }
    } un{m, (pages + 2) * pg};
    bool end = s.chance(1, 2);
    uint8_t *p = end ? m + pg + pages * pg - (n + 1) : m + pg;
    memset(m, 0xEE, (pages + 2) * pg);
    memcpy(p, t.data(), n);
    p[n] = 0;
    mprotect(m, pg, PROT_NONE);
    mprotect(m + pg, pages * pg, PROT_READ);
    mprotect(m + pg + pages * pg, pg, PROT_NONE);
    c.label(end ? "text ends at an unmapped page" : "text starts after an unmapped page");
    sut::Result r(flbwt::bwt_string(p, n, false));
    touch(r, n);
}
VP_PART(c04_guard, c04_guard, 60000, 1200000, 120, 0, 4096, "texts in read-only pages between unmapped pages; non-trivial: at least two S* substrings");

// --- coverage-guided: the choice bytes are the input
static void c04_fuzz(Src &s, Ctx &c)
{
    inter::lib_reset();
    uint8_t m = s.byte(), h = s.byte();
    inter::ht_size = 1 + h % 32;
    inter::hb_size = 32 + (h >> 5) * 24;
    inter::sa_raise = WIDTH_MIN[m % 5];
    Bytes t;
    if (m & 64)
        t = gen::text(s, 4000, nullptr);
    else
        while (s.remaining() && t.size() < 6000)
        {
            uint8_t b = s.byte();
            if ((m & 32) && b >= 240)
            { // repeat the last byte
                uint64_t l = s.byte() + ((uint64_t)(b & 3) << 8);
                t.insert(t.end(), l, t.empty() ? 0 : t.back());
            }
            else
                t.push_back(m & 128 ? b & 3 : b);
        }
    if (t.empty())
        t.push_back(0);
    sut::Result r = sut::call(t, m & 16);
    touch(r, t.size());
    inter::lib_reset();
    std::string e = ref::check_inverse(t.data(), t.size(), r.r->BWT, r.r->last, false);
    VP_REQUIRE(e.empty(), "%s", e.c_str());
}
VP_PART(c04_fuzz, c04_fuzz, 2000, 2000, 300, 0, 0, "fuzzing target");

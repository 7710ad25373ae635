// C04: decisions and results from memory that was never written
// (MemorySanitizer).  Only the library and inter.cpp are instrumented, so
// nothing but the library's own use of memory is judged.
#include "sut.hpp"
#include "inter.hpp"
#include <sanitizer/msan_interface.h>
using namespace vp;
using sut::Bytes;

static const uint64_t WIDTH_MIN[5] = {0, 1ull << 31, 1ull << 39, 1ull << 47, 1ull << 55};

static void run(const Bytes &t, bool owned)
{
    size_t n = t.size();
    uint8_t *p = sut::dup(t);
    __msan_unpoison(p, n + 1);
    inter::ms.T = p, inter::ms.n = n, inter::ms.owned = owned, inter::ms.r = nullptr;
    inter::ms_call();
    std::unique_ptr<uint8_t, void (*)(void *)> own(owned ? nullptr : p, free);
    sut::Result r((flbwt::BWT_result *)inter::ms.r);
    VP_REQUIRE(r.r && r.r->BWT, "no result");
    VP_REQUIRE(__msan_test_shadow(r.r, sizeof *r.r) == -1, "a field of the result was never written");
    uint64_t last = r.r->last;
    VP_REQUIRE(last <= n, "rank %lu is larger than the length %zu", (unsigned long)last, n);
    long a = last ? (long)__msan_test_shadow(r.r->BWT, last) : -1;
    long b = n - last ? (long)__msan_test_shadow(r.r->BWT + last + 1, n - last) : -1;
    VP_REQUIRE(a < 0, "row %ld comes from memory that was never written", a);
    VP_REQUIRE(b < 0, "row %ld comes from memory that was never written", b + (long)last + 1);
}
static void settings(Src &s, Ctx &c)
{
    inter::lib_reset();
    if (!s.chance(1, 10))
        inter::ht_size = s.chance(1, 2) ? 1 + s.range(0, 4) : 1 + s.range(0, 600);
    if (s.chance(1, 2))
        inter::hb_size = 32 + s.range(0, s.chance(1, 2) ? 40 : 1500);
    int w = s.weighted({2, 1, 1, 1, 1});
    inter::sa_raise = WIDTH_MIN[w];
    c.note("buckets %lu growth %lu width class %d", (unsigned long)inter::ht_size, (unsigned long)inter::hb_size, w);
    c.label("width class " + std::to_string(w));
}
static void c04_uexh(Src &s, Ctx &c)
{
    static const std::vector<std::pair<int, int>> PQ = {{2, 10}, {3, 6}, {4, 4}, {256, 1}}, PT = {{2, 14}, {3, 9}, {4, 7}, {5, 5}, {256, 2}};
    auto &P = thorough() ? PT : PQ;
    inter::lib_reset();
    uint64_t i = s.index(0), tot = sut::enum_count(P);
    int k;
    Bytes t = sut::enumerated(i % tot, 0, P, &k);
    uint64_t h = mix64(i);
    sut::remap(t, k, h % 4);
    inter::ht_size = 1 + (h >> 8) % 7;
    if (h & 16)
        inter::hb_size = 32;
    inter::sa_raise = WIDTH_MIN[(i / tot) % 5];
    c.note("text %s width class %lu", ref::show(t).c_str(), (unsigned long)(i / tot) % 5);
    c.key(t.data(), t.size());
    c.key((i / tot) % 5);
    c.nontrivial(t.size() >= 3);
    run(t, h & 32);
}
VP_PART(c04_uexh, c04_uexh, 18000, 600000, 120, 0, 0, "all strings over small alphabets up to a length, each width, reads of unwritten memory; non-trivial: length >= 3");
static void c04_uninit(Src &s, Ctx &c)
{
    settings(s, c);
    Bytes t = gen::text(s, 20000, &c);
    c.nontrivial(gen::classify(t, c));
    run(t, s.chance(1, 2));
}
VP_PART(c04_uninit, c04_uninit, 16000, 400000, 300, 0, 0, "structured texts up to 20000 bytes, each width, reads of unwritten memory; non-trivial: at least two S* substrings");
static void c04_ubig(Src &s, Ctx &c)
{
    inter::lib_reset();
    Bytes t = gen::text(s, 200000, &c);
    inter::sa_raise = WIDTH_MIN[s.weighted({2, 1, 1, 1, 1})];
    c.nontrivial(gen::classify(t, c));
    run(t, s.chance(1, 2));
}
VP_PART(c04_ubig, c04_ubig, 240, 5000, 600, 0, 0, "texts up to 200 kB, the real table, reads of unwritten memory; non-trivial: at least two S* substrings");

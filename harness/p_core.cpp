// C01, C06, C10: results of the in-memory transform.
#include "sut.hpp"
#include "inter.hpp"
#include <errno.h>
#include <fenv.h>
#include <locale.h>
#include <new>
#include <thread>
using namespace vp;
using sut::Bytes;

// ------------------------------------------------------------------ C01
static const std::vector<std::pair<int, int>> PLAN_Q = {{2, 13}, {3, 8}, {4, 6}, {5, 5}, {6, 5}, {1, 20}};
static const std::vector<std::pair<int, int>> PLAN_T = {{2, 18}, {3, 11}, {4, 9}, {5, 7}, {6, 6}, {7, 6}, {1, 40}};

static void c01_exh(Src &s, Ctx &c)
{
    inter::lib_reset();
    uint64_t i = s.index(0);
    uint64_t tq = sut::enum_count(PLAN_Q), v = i / (thorough() ? sut::enum_count(PLAN_T) : tq);
    int k;
    Bytes t = sut::enumerated(i % (thorough() ? sut::enum_count(PLAN_T) : tq), 0, thorough() ? PLAN_T : PLAN_Q, &k);
    sut::remap(t, k, v + i);
    c.note("text %s", ref::show(t).c_str());
    c.key(t.data(), t.size());
    c.nontrivial(t.size() >= 3);
    c.label("symbols:" + std::to_string(k));
    sut::check(t, sut::call(t, i & 1), true);
}
VP_PART(c01_exh, c01_exh, 60000, 1400000, 120, 0, 4096, "enumeration of all strings over k symbols up to a length (see DESIGN); non-trivial: length >= 3");

static void c01_rand(Src &s, Ctx &c)
{
    inter::lib_reset();
    Bytes t = gen::text(s, 30000, &c);
    c.nontrivial(gen::classify(t, c));
    bool fr = s.chance(1, 2);
    sut::check(t, sut::call(t, fr), t.size() <= 3000);
    if (c.case_no % 16 == 5 && t.size() <= 20000)
        c.label("sampled: sorter recursion depth " + std::to_string(ref::depth(t)));
}
VP_PART(c01_rand, c01_rand, 70000, 1500000, 120, 0, 4096, "structured texts up to 30000 bytes; non-trivial: at least two S* substrings");

// many long pieces: bucket collisions and block chains in the real table size
static Bytes manylong(Src &s)
{
    Bytes t;
    uint64_t m = 200 + s.range(0, 1800), lo = 3 + s.range(0, 600), sp = s.range(0, 60);
    Prng r(s.u64());
    for (uint64_t i = 0; i < m && t.size() < 900000; i++)
    {
        t.push_back(1);
        uint64_t a = lo + r.below(sp + 1), b = lo / 2 + r.below(sp + 1);
        uint8_t hi = 3 + r.below(250);
        t.insert(t.end(), a, hi);
        t.insert(t.end(), b, hi - 1);
    }
    return t;
}
static void c01_big(Src &s, Ctx &c)
{
    inter::lib_reset();
    Bytes t;
    switch (s.weighted({2, 2, 1}))
    {
    case 0:
        t = gen::text(s, 2000000, &c);
        break;
    case 1:
        t = manylong(s);
        c.label("family:manylong");
        c.note("manylong text %s", ref::show(t).c_str());
        c.key(t.data(), t.size());
        break;
    default:
    {
        uint64_t n = 100000 + s.range(0, 1200000), k = 2 + s.range(0, 254);
        Prng r(s.u64());
        t.resize(n);
        for (auto &x : t)
            x = r.below(k);
        c.label("family:bigrandom");
        c.note("random text over %lu letters, n=%lu", (unsigned long)k, (unsigned long)n);
        c.key(t.data(), t.size());
    }
    }
    c.nontrivial(gen::classify(t, c));
    sut::check(t, sut::call(t, s.chance(1, 2)), false);
}
VP_PART(c01_big, c01_big, 400, 8000, 300, 0, 8192, "texts up to 2 MB; non-trivial: at least two S* substrings");

// so many bytes that names take four bytes (thorough: so many different
// pieces that they fill them)
static void c01_giant(Src &s, Ctx &c)
{
    inter::lib_reset();
    uint64_t i = s.index(0);
    uint64_t n = i % 4 < 2 ? (1ull << 25) + 10 + s.range(0, 3000000) : i % 4 == 2 ? 110000000 + s.range(0, 10000000) : (1ull << 25) - 40 + s.range(0, 60);
    uint64_t k = i % 2 == 0 ? 256 : 2 + s.range(0, 60);
    Prng r(s.u64());
    Bytes t(n);
    if (i % 2 == 0)
        for (auto &x : t)
            x = r.next() >> 20;
    else
    { // repetitive as well
        for (uint64_t j = 0; j < n;)
        {
            if (j > 100000 && r.below(3))
            {
                uint64_t len = std::min<uint64_t>(n - j, 1 + r.below(2000)), from = r.below(j - len > j ? j : j - std::min(j - 1, len));
                for (uint64_t q = 0; q < len; q++)
                    t[j + q] = t[from + q];
                j += len;
            }
            else
                for (uint64_t len = std::min<uint64_t>(n - j, 300); len--;)
                    t[j++] = r.below(k);
        }
    }
    c.note("%s text of %lu bytes over %lu letters", i % 2 ? "repetitive" : "random", (unsigned long)n, (unsigned long)k);
    c.key(n * 256 + k);
    c.nontrivial(true);
    sut::check(t, sut::call(t, true), false);
}
VP_PART(c01_giant, c01_giant, 2, 12, 1500, 2, 0, "texts of more than 33.5 million bytes (thorough: 110 million); every case is non-trivial");

// small hash table and small or large growth step: long bucket chains
static void c01_chain(Src &s, Ctx &c)
{
    inter::lib_reset();
    Bytes t = gen::text(s, 12000, &c);
    inter::ht_size = s.chance(1, 2) ? 1 + s.range(0, 6) : s.pick<uint64_t>({1, 2, 13, 101, 509});
    if (s.chance(2, 3))
        inter::hb_size = 32 + s.range(0, s.chance(1, 2) ? 100 : 4000);
    c.note("buckets %lu growth %lu", (unsigned long)inter::ht_size, (unsigned long)inter::hb_size);
    c.nontrivial(gen::classify(t, c));
    bool nv = t.size() <= 2000;
    sut::Result r = sut::call(t, true);
    c.label(inter::n_ctor ? "table resized" : "table not reached");
    inter::lib_reset();
    sut::check(t, r, nv);
}
VP_PART(c01_chain, c01_chain, 60000, 1200000, 120, 0, 4096, "structured texts, hash table of 1..509 buckets; non-trivial: at least two S* substrings");

// ------------------------------------------------------------------ C06
__attribute__((noinline)) static void dirty_stack(uint8_t b)
{
    volatile uint8_t a[60000];
    for (size_t i = 0; i < sizeof a; i++)
        a[i] = b;
}
struct Out
{
    uint64_t last;
    Bytes rows;
};
static Out take(const sut::Result &r, size_t n)
{
    Out o;
    VP_REQUIRE(r.r && r.r->BWT, "no result");
    o.last = r.r->last;
    o.rows.assign(r.r->BWT, r.r->BWT + n + 1);
    VP_REQUIRE(o.last <= n, "rank %lu is larger than the length %zu", (unsigned long)o.last, n);
    o.rows[o.last] = 0;
    return o;
}
static Out placed(Src &s, const Bytes &t, Ctx &c)
{
    // text at a chosen alignment, with chosen bytes behind the terminator
    uint64_t al = s.range(0, 15);
    uint8_t after = s.pick<uint8_t>({0, 1, 255, 'a', 128});
    uint8_t before = s.pick<uint8_t>({0, 255, 'z', 1});
    bool fr = al == 0 && s.chance(1, 2);
    c.note("offset %lu, %s, byte before %u, after %u", (unsigned long)al, fr ? "owned" : "borrowed", before, after);
    uint8_t *base = (uint8_t *)malloc(al + t.size() + 1 + 64);
    memset(base, before, al);
    memset(base + al + t.size() + 1, after, 64);
    memcpy(base + al, t.data(), t.size());
    base[al + t.size()] = 0;
    sut::Result r;
    try
    {
        r = sut::Result(flbwt::bwt_string(base + al, t.size(), fr));
    }
    catch (...)
    {
        if (!fr)
            free(base);
        throw;
    }
    if (!fr)
        free(base);
    return take(r, t.size());
}
// state of the process around a call
struct Surroundings
{
    int rounding = FE_TONEAREST, err = 0;
    bool thread = false, locale_ = false;
    Surroundings(Src &s, Ctx &c)
    {
        if (!s.chance(1, 3))
            return;
        rounding = s.pick<int>({FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO});
        thread = s.chance(1, 4);
        locale_ = s.chance(1, 4);
        err = s.pick<int>({0, EINTR, ENOMEM, ERANGE, 4711});
        c.label(rounding == FE_TONEAREST ? "rounding:nearest" : "rounding:other");
        c.note("rounding mode %d%s%s errno %d", rounding, thread ? ", own thread" : "", locale_ ? ", C.UTF-8" : "", err);
    }
    void enter()
    {
        fesetround(rounding);
        if (locale_)
            setlocale(LC_ALL, "C.UTF-8");
        errno = err;
    }
    ~Surroundings()
    {
        fesetround(FE_TONEAREST);
        setlocale(LC_ALL, "C");
    }
};
static void c06_det(Src &s, Ctx &c)
{
    inter::lib_reset();
    inter::fill_mode = inter::FILL_NONE;
    if (!s.chance(1, 3))
        inter::ht_size = 257;
    size_t nt = 1 + s.range(0, 2);
    std::vector<Bytes> ts;
    std::vector<Out> base;
    for (size_t i = 0; i < nt; i++)
        ts.push_back(gen::text(s, i ? 1500 : 6000, i ? nullptr : &c));
    c.nontrivial(gen::classify(ts[0], c));
    if (s.chance(1, 6))
        inter::sa_raise = 1ull << s.pick<int>({31, 39, 47, 55});
    for (auto &t : ts)
        base.push_back(take(sut::call(t, true), t.size()));
    size_t steps = 3 + s.range(0, 4);
    struct Restore
    {
        ~Restore() { inter::fill_mode = inter::FILL_NONE; }
    } restore;
    for (size_t k = 0; k < steps; k++)
    {
        size_t w = k == 0 ? 0 : s.range(0, nt - 1);
        switch (s.weighted({3, 2, 2, 1}))
        {
        case 0:
            inter::fill_mode = inter::FILL_BYTE;
            inter::fill_byte = s.pick<uint8_t>({0xff, 0xaa, 0x55, 1, 0x80, 0x7f});
            break;
        case 1:
            inter::fill_mode = inter::FILL_RANDOM;
            inter::fill_seed = s.u64();
            break;
        case 2:
            inter::fill_mode = inter::FILL_BYTE;
            inter::fill_byte = s.byte();
            break;
        default: inter::fill_mode = inter::FILL_NONE;
        }
        c.label(inter::fill_mode == inter::FILL_NONE ? "fill:none" : inter::fill_mode == inter::FILL_BYTE ? "fill:byte" : "fill:random");
        c.note("step %zu: text %zu fill %d/%u", k, w, inter::fill_mode, inter::fill_byte);
        dirty_stack(s.byte());
        if (s.chance(1, 12))
        { // a rejected call in between
            bool threw = false;
            try
            {
                flbwt::bwt_string(nullptr, 5, false);
            }
            catch (std::exception &)
            {
                threw = true;
            }
            c.label(threw ? "rejected call between" : "null accepted");
        }
        Out o;
        {
            Surroundings sur(s, c);
            if (sur.thread)
            { // a thread of its own
                std::exception_ptr e;
                std::thread th([&] {
                    try
                    {
                        sur.enter();
                        o = placed(s, ts[w], c);
                    }
                    catch (...)
                    {
                        e = std::current_exception();
                    }
                });
                th.join();
                if (e)
                    std::rethrow_exception(e);
            }
            else
            {
                sur.enter();
                o = placed(s, ts[w], c);
            }
        }
        inter::fill_mode = inter::FILL_NONE;
        VP_REQUIRE(o.last == base[w].last, "rank of text %zu is %lu, was %lu before (step %zu)", w, (unsigned long)o.last, (unsigned long)base[w].last, k);
        if (o.rows != base[w].rows)
        {
            size_t i = 0;
            while (o.rows[i] == base[w].rows[i])
                i++;
            fail("row %zu of text %zu is 0x%02x, was 0x%02x before (step %zu)", i, w, o.rows[i], base[w].rows[i], k);
        }
    }
}
VP_PART(c06_det, c06_det, 14000, 350000, 120, 0, 4096, "1-3 texts called 4-10 times with different heap contents, placement, ownership and order; non-trivial: first text has at least two S* substrings");

// larger texts against a fresh process
static void c06_big(Src &s, Ctx &c)
{
    inter::lib_reset();
    inter::fill_mode = inter::FILL_NONE;
    Bytes t = gen::text(s, 300000, &c);
    c.nontrivial(gen::classify(t, c));
    Out a = take(sut::call(t, true), t.size());
    inter::fill_mode = inter::FILL_RANDOM;
    inter::fill_seed = s.u64();
    struct Restore
    {
        ~Restore() { inter::fill_mode = inter::FILL_NONE; }
    } restore;
    Out b = take(sut::call(t, false), t.size());
    VP_REQUIRE(a.last == b.last && a.rows == b.rows, "result differs when fresh memory holds other bytes");
}
VP_PART(c06_big, c06_big, 700, 12000, 300, 0, 8192, "texts up to 300 kB, zero versus random heap; non-trivial: at least two S* substrings");

// ------------------------------------------------------------------ C10
static const uint64_t WIDTH_MIN[5] = {0, 1ull << 31, 1ull << 39, 1ull << 47, 1ull << 55};
static const char *WIDTH_NAME[5] = {"32", "40", "48", "56", "64"};

static bool force(int w, uint64_t extra)
{
    inter::sa_raise = WIDTH_MIN[w] ? WIDTH_MIN[w] + extra : 0;
    return true;
}
static void width_label(Ctx &c, int w)
{
    c.label(inter::n_sais[w] ? std::string("width ") + WIDTH_NAME[w] : std::string("width ") + WIDTH_NAME[w] + " not reached");
}
static void c10_exh(Src &s, Ctx &c)
{
    static const std::vector<std::pair<int, int>> PL = {{2, 10}, {3, 6}, {4, 5}};
    static const std::vector<std::pair<int, int>> PT = {{2, 14}, {3, 9}, {4, 7}, {5, 6}};
    auto &P = thorough() ? PT : PL;
    inter::lib_reset();
    uint64_t i = s.index(0), tot = sut::enum_count(P);
    int w = (i / tot) % 5, k;
    Bytes t = sut::enumerated(i % tot, 0, P, &k);
    sut::remap(t, k, i);
    inter::ht_size = 61;
    force(w, 0);
    c.note("width %s text %s", WIDTH_NAME[w], ref::show(t).c_str());
    c.key(t.data(), t.size());
    c.key(w);
    c.nontrivial(t.size() >= 3);
    sut::Result r = sut::call(t, i & 1);
    width_label(c, w);
    inter::lib_reset();
    sut::check(t, r, false);
}
VP_PART(c10_exh, c10_exh, 45020, 900000, 120, 0, 4096, "all strings over 2-5 symbols up to a length in each of the five widths; non-trivial: length >= 3");

static void c10_rand(Src &s, Ctx &c)
{
    inter::lib_reset();
    Bytes t = gen::text(s, 40000, &c);
    int w = 4 - s.range(0, 4);
    if (s.chance(2, 3))
        inter::ht_size = 1021;
    force(w, s.chance(1, 2) ? 0 : s.range(0, WIDTH_MIN[w] ? WIDTH_MIN[w] - 1 : 0));
    c.note("width %s", WIDTH_NAME[w]);
    c.key(w);
    c.nontrivial(gen::classify(t, c));
    sut::Result r = sut::call(t, s.chance(1, 2));
    width_label(c, w);
    if (c.case_no % 16 == 5 && t.size() <= 20000)
        c.label(std::string("sampled: width ") + WIDTH_NAME[w] + " recursion depth " + std::to_string(ref::depth(t)));
    inter::lib_reset();
    sut::check(t, r, false);
}
VP_PART(c10_rand, c10_rand, 160000, 3000000, 120, 0, 4096, "structured texts up to 40000 bytes, one of five widths each; non-trivial: at least two S* substrings");

static void c10_big(Src &s, Ctx &c)
{
    inter::lib_reset();
    Bytes t = s.chance(1, 4) ? manylong(s) : gen::text(s, 800000, &c);
    int w = 4 - s.range(0, 4);
    force(w, 0);
    c.note("width %s", WIDTH_NAME[w]);
    c.key(w);
    c.nontrivial(gen::classify(t, c));
    sut::Result r = sut::call(t, true);
    width_label(c, w);
    inter::lib_reset();
    sut::check(t, r, false);
}
VP_PART(c10_big, c10_big, 1200, 20000, 300, 0, 8192, "texts up to 800 kB in one of five widths; non-trivial: at least two S* substrings");

// The choice of the width: the decomposition reports that many pieces, the
// sorting that largest position; stopped where the sorter is called.
static void c10_choice(Src &s, Ctx &c)
{
#ifdef VP_MALLOC
    static int touches = -1;
    auto call = [&](uint64_t N, uint64_t V) {
        inter::lib_reset();
        inter::sorter = inter::Sorter();
        inter::ht_size = 5;
        inter::sub_raise = N;
        inter::sa_raise = V;
        inter::seen_sa_max = 0;
        inter::sparse_malloc = true;
        static uint8_t t[] = {'b', 'a', 'b', 'c', 'a', 'b', 'b', 'a', 'c', 0};
        bool stopped = false;
        try
        {
            sut::Result r(flbwt::bwt_string(t, sizeof t - 1, false));
        }
        catch (inter::Stop &)
        {
            stopped = true;
        }
        catch (std::exception &)
        {
            c.label("no address space");
        }
        return stopped;
    };
    auto done = [&]() {
        for (int i = 0; i < 3; i++)
            if (inter::sparse_size(inter::sorter.out[i]))
                free((void *)inter::sorter.out[i]);
        inter::sparse_malloc = false;
        inter::lib_reset();
    };
    if (touches < 0)
    { // can the arrays be made without using memory?
        uint64_t r0 = inter::resident();
        bool st = call((1ull << 28) + 5, 0);
        touches = !st || !inter::sorter.extracted || !inter::sorter.made || inter::sorter.n != (1ull << 28) + 6 || inter::resident() > r0 + (64 << 20);
        done();
    }
    if (touches)
    {
        c.label("not observable in this tree");
        return;
    }
    uint64_t N, V = 0;
    switch (s.weighted({3, 3, 2}))
    {
    case 0: N = (1ull << 31) - 6 + s.range(0, 10); break;
    case 1: N = (1ull << 39) - 6 + s.range(0, 10); break;
    default: N = (1ull << (20 + s.range(0, 20))) + s.range(0, 1000000);
    }
    if (s.chance(1, 2))
        V = (1ull << s.pick<int>({31, 32, 39, 40, 47, 48, 55, 56, 62})) - 6 + s.range(0, 10);
    c.note("%lu pieces, largest position at least %lu", (unsigned long)N, (unsigned long)V);
    c.key(N);
    c.key(V);
    bool st = call(N, V);
    inter::Sorter o = inter::sorter;
    uint64_t seen = inter::seen_sa_max, size[3] = {0, 0, 0};
    for (int i = 0; i < 3; i++)
        size[i] = inter::sparse_size(o.out[i]);
    done();
    if (!st)
        return;
    c.label(std::string("width ") + WIDTH_NAME[o.width]);
    c.nontrivial(true);
    static const int BITS[5] = {32, 40, 48, 56, 64};
    static const int ELEM[5][3] = {{4, 0, 0}, {4, 1, 0}, {4, 2, 0}, {4, 2, 1}, {8, 0, 0}};
    uint64_t top = (1ull << (BITS[o.width] - 1)) - 1; // values and their complements
    VP_REQUIRE(o.n == N + 1, "%lu pieces: the sorter is called for %lu elements", (unsigned long)N, (unsigned long)o.n);
    VP_REQUIRE(seen <= top, "largest position %lu: %s bit indices are used", (unsigned long)seen, WIDTH_NAME[o.width]);
    VP_REQUIRE(N + 1 <= top, "%lu pieces: %s bit indices are used", (unsigned long)N, WIDTH_NAME[o.width]);
    for (int i = 0; i < o.arrays; i++)
    {
        uint64_t need = (N + 1 + o.fs) * ELEM[o.width][i];
        VP_REQUIRE(size[i] ? size[i] >= need : need < (1ull << 30), "%lu pieces: array %d of %s bit indices has %lu bytes", (unsigned long)N, i, WIDTH_NAME[o.width], (unsigned long)size[i]);
    }
#endif
}
VP_PART(c10_choice, c10_choice, 20000, 200000, 120, 0, 0, "numbers of pieces and largest positions around 2^31..2^62: the width and the arrays that the sorter is given; non-trivial: the sorter was reached");

// C19: executed work (basic blocks of the library plus the bytes moved by
// block operations).  C20: peak heap.  One unit, built with trace-pc for C19
// and with the tracking allocator for C20.
#include "files.hpp"
#include "inter.hpp"
#include <math.h>
using namespace vp;
using sut::Bytes;

// ---------------------------------------------------------- text families
static const char *fam_names[] = {"random bytes", "random letters", "two letters", "skewed letters", "prose", "lines", "short period", "long period", "runs", "equal bytes",
                                  "fibonacci", "thue-morse", "tower", "increasing ramps", "de bruijn", "copies with edits", "records", "zeros and noise", "decreasing ramps", "one long piece"};
enum
{
    NFAM = 20
};
static Bytes family(int f, size_t n, uint64_t seed, uint64_t prm)
{
    Prng r(seed);
    Bytes t;
    t.reserve(n + 64);
    switch (f)
    {
    case 0:
        while (t.size() < n) t.push_back(r.next());
        break;
    case 1:
    {
        uint64_t k = 3 + prm % 60;
        while (t.size() < n) t.push_back('0' + r.below(k));
        break;
    }
    case 2:
        while (t.size() < n) t.push_back('a' + r.below(2));
        break;
    case 3:
    {
        uint64_t k = 2 + prm % 30;
        while (t.size() < n) t.push_back('A' + r.below(r.below(r.below(k) + 1) + 1));
        break;
    }
    case 4:
    case 5:
    {
        uint64_t w = 300 + prm % 20000;
        std::vector<Bytes> dict(w);
        for (auto &x : dict)
        {
            uint64_t l = 1 + r.below(10);
            for (uint64_t i = 0; i < l; i++) x.push_back('a' + r.below(r.below(26) + 1));
        }
        uint64_t col = 0;
        while (t.size() < n)
        {
            auto &x = dict[r.below(r.below(w) + 1)];
            t.insert(t.end(), x.begin(), x.end());
            col += x.size();
            t.push_back(f == 5 && col > 60 ? (col = 0, '\n') : ' ');
        }
        break;
    }
    case 6:
    case 7:
    {
        uint64_t p = f == 6 ? 1 + prm % 20 : 1000 + prm % 8000;
        Bytes u(p);
        for (auto &x : u) x = 'a' + r.below(4);
        while (t.size() < n) t.push_back(u[t.size() % p]);
        break;
    }
    case 8:
        while (t.size() < n) t.insert(t.end(), 1 + r.below(1 + prm % 3000), r.below(4) * 60);
        break;
    case 9: t.assign(n, prm); break;
    case 10:
    {
        Bytes a{'a'}, b{'a', 'b'};
        while (b.size() < n)
        {
            Bytes x = b;
            x.insert(x.end(), a.begin(), a.end());
            a.swap(b);
            b.swap(x);
        }
        t = b;
        break;
    }
    case 11:
        for (size_t i = 0; i < n; i++) t.push_back('a' + __builtin_popcountll(i + prm % 100) % 2);
        break;
    case 12:
    { // x -> x c x ..., every level one symbol
        Bytes x{'b'};
        int k = 0;
        while (x.size() < n)
        {
            Bytes y = x;
            y.push_back('c' + (k++ * (1 + prm % 3)) % 20);
            y.insert(y.end(), x.begin(), x.end());
            x.swap(y);
        }
        t = x;
        break;
    }
    case 13:
        while (t.size() < n)
            for (int i = 0; i < 256; i += 1 + (int)(prm % 9)) t.push_back(i);
        break;
    case 14:
    { // binary de Bruijn like sequence from a shift register
        uint32_t x = 1;
        while (t.size() < n)
        {
            x = (x >> 1) ^ (-(x & 1u) & 0x80200003u);
            t.push_back('0' + (x & 1));
        }
        break;
    }
    case 15:
    { // genome-like: copies of a block with few changes
        uint64_t b = 2000 + prm % 20000;
        Bytes u(b);
        for (auto &x : u) x = "acgt"[r.below(4)];
        while (t.size() < n)
        {
            for (int k = 0; k < 5; k++) u[r.below(b)] = "acgt"[r.below(4)];
            t.insert(t.end(), u.begin(), u.end());
        }
        break;
    }
    case 16:
    { // fixed-width records with counters
        char buf[64];
        for (uint64_t i = 0; t.size() < n; i++)
        {
            int k = snprintf(buf, sizeof buf, "%08lu;%05lu;item-%lu\n", (unsigned long)i, (unsigned long)r.below(100000), (unsigned long)(i % 97));
            t.insert(t.end(), buf, buf + k);
        }
        break;
    }
    case 17:
        while (t.size() < n)
        {
            t.insert(t.end(), r.below(600), 0);
            uint64_t l = r.below(150);
            while (l--) t.push_back(r.next());
        }
        break;
    case 18:
        while (t.size() < n)
            for (int i = 255; i >= 0; i -= 1 + (int)(prm % 9)) t.push_back(i);
        break;
    default: // up once, down once
        for (size_t i = 0; i < n; i++) t.push_back(i < n / 3 ? 100 - i * 100 / n : i * 200 / n);
    }
    t.resize(n);
    return t;
}

#ifdef VP_COV
#ifndef VP_NO_COUNT
static uint64_t blocks, moved;
extern "C"
{
    void __sanitizer_cov_trace_pc() { blocks++; }
    // block operations called by the library
    __attribute__((optimize("no-tree-loop-distribute-patterns"))) void *memcpy(void *d, const void *s, size_t n)
    {
        moved += n;
        void *r = d;
        asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
        return r;
    }
    void *memset(void *d, int c, size_t n)
    {
        moved += n;
        void *r = d;
        asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
        return r;
    }
    __attribute__((optimize("no-tree-loop-distribute-patterns"))) void *memmove(void *d, const void *s, size_t n)
    {
        moved += n;
        if ((uintptr_t)d - (uintptr_t)s >= n)
        {
            void *r = d;
            asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
            return r;
        }
        volatile char *a = (volatile char *)d + n;
        const volatile char *b = (const volatile char *)s + n;
        while (n--)
            *--a = *--b;
        return d;
    }
    int memcmp(const void *x, const void *y, size_t n)
    {
        const unsigned char *a = (const unsigned char *)x, *b = (const unsigned char *)y;
        size_t i = 0;
        while (i < n && a[i] == b[i])
        {
            i++;
            asm volatile("");
        }
        moved += i;
        return i < n ? (int)a[i] - (int)b[i] : 0;
    }
}
#endif
static double work(const Bytes &t, Bytes *rows = nullptr)
{
    uint8_t *p = sut::dup(t);
    blocks = moved = 0;
    sut::Result r(flbwt::bwt_string(p, t.size(), true));
    double w = (double)blocks + moved / 16.0;
    sut::check(t, r, false);
    return w;
}
static void c19_grow(Src &s, Ctx &c)
{
    static double worst;
    inter::lib_reset();
    int f = s.index(0) % NFAM;
    uint64_t prm = s.u64() >> 8, seed = s.u64();
    size_t n0 = 1000 + s.range(0, 3000), top = s.weighted({6, 2, 1});
    size_t maxn = top == 0 ? 140000 : top == 1 ? 300000 : 1100000;
    int w = s.weighted({5, 1, 1, 1, 1});
    static const uint64_t WM[5] = {0, 1ull << 31, 1ull << 39, 1ull << 47, 1ull << 55};
    inter::sa_raise = WM[w];
    c.label(std::string("family ") + fam_names[f]);
    c.label("width class " + std::to_string(w));
    c.note("%s, parameter %lu, lengths from %zu to %zu", fam_names[f], (unsigned long)prm, n0, maxn);
    c.key(f * 1000003ull + prm);
    double prev = 0, base = 0;
    size_t basen = 0, cnt = 0;
    for (size_t n = n0; n <= maxn; n *= 2)
    {
        Bytes t = family(f, n, seed, prm);
        double x = work(t);
        c.note("n=%zu work %.0f (%.1f per byte)", n, x, x / n);
        if (getenv("VP_MEASURE"))
            fprintf(stderr, "M %d %s %d %zu %.3f %.3f %.3f\n", f, fam_names[f], w, n, x / (3e6 + 500.0 * n), n > 16000 && prev ? x / prev : 0, base ? x / base / ((double)n / basen) : 0);
        VP_REQUIRE(x <= 3e6 + 500.0 * n, "%s: %.0f steps for %zu bytes, expected at most %.0f", fam_names[f], x, n, 3e6 + 500.0 * n);
        if (n >= 16000)
        {
            VP_REQUIRE(!prev || x <= 2.5 * prev, "%s: %.0f steps for %zu bytes, %.0f for half of that", fam_names[f], x, n, prev);
            if (!base)
            {
                base = x;
                basen = n;
            }
            VP_REQUIRE(x / base <= 1.7 * n / basen, "%s: %.0f steps for %zu bytes, %.0f for %zu bytes", fam_names[f], x, n, base, basen);
        }
        prev = x;
        cnt++;
    }
    c.nontrivial(cnt >= 5);
}
VP_PART(c19_grow, c19_grow, 800, 12000, 600, 0, 0, "families of texts with doubling lengths from about 2000 to 140000, 300000 or a million bytes; non-trivial: at least five lengths");
#else
// pieces of the decomposition and how many of them differ (at most `cap` are told apart)
static uint64_t distinct_pieces(const Bytes &t, uint64_t &total)
{
    size_t n = t.size(), q = n;
    std::vector<uint64_t> hs;
    bool next = false;
    bool first = true;
    for (size_t i = n; i-- > 1;)
    {
        bool cur = i < n - 1 && (t[i - 1 + 1] < t[i + 1] || (t[i] == t[i + 1] && next));
        bool prev = t[i - 1] < t[i] || (t[i - 1] == t[i] && cur);
        if (cur && !prev)
        {
            if (!first || q == n)
            {
                uint64_t h = q - i;
                for (size_t k = i; k < q && k < n; k++)
                    h = (h ^ t[k]) * 0x9e3779b97f4a7c15ull, h ^= h >> 29;
                hs.push_back(h);
            }
            first = false;
            q = i + 1;
        }
        next = cur;
    }
    total = hs.size();
    std::sort(hs.begin(), hs.end());
    return std::unique(hs.begin(), hs.end()) - hs.begin();
}
struct Peak
{
    double peak, after;
    bool released, early, ok;
};
static Peak measure(const Bytes &t, bool owned)
{
    inter::led_reset();
    uint8_t *p = sut::dup(t);
    inter::track = true;
    inter::led_adopt(p, t.size() + 1);
    inter::watch = p;
    sut::Result r(flbwt::bwt_string(p, t.size(), owned));
    inter::track = false;
    Peak k;
    k.ok = inter::led.overflow == 0;
    k.peak = inter::led.peak_bytes;
    k.after = inter::peak_after;
    k.released = inter::watch_seq != 0;
    k.early = k.released && r.r && r.r->BWT && inter::watch_seq < inter::led_alloc_seq(r.r->BWT);
    if (!owned)
        free(p);
    inter::led_reset();
    return k;
}
static void c20_peak(Src &s, Ctx &c)
{
    inter::lib_reset();
    static bool warm;
    if (!warm)
    {
        warm = true;
        sut::call(Bytes{3, 1, 2}, true);
    }
    int f = s.index(0) % NFAM;
    uint64_t prm = s.u64() >> 8, seed = s.u64();
    size_t top = s.weighted({4, 6, 3, 1});
    size_t n = top == 0 ? 1 + s.range(0, 20000) : top == 1 ? 20000 + s.range(0, 300000) : top == 2 ? 300000 + s.range(0, 1000000) : 1000000 + s.range(0, 4000000);
    int w = s.weighted({5, 1, 1, 1, 1});
    static const uint64_t WM[5] = {0, 1ull << 31, 1ull << 39, 1ull << 47, 1ull << 55};
    inter::sa_raise = WM[w];
    c.label(std::string("family ") + fam_names[f]);
    c.label("width class " + std::to_string(w));
    c.note("%s, parameter %lu, %zu bytes, width class %d", fam_names[f], (unsigned long)prm, n, w);
    c.key(f * 1000003ull + prm);
    Bytes t = family(f, n, seed, prm);
    uint64_t total, D = distinct_pieces(t, total);
    Peak kept = measure(t, false), owned = measure(t, true);
    if (!kept.ok || !owned.ok)
    {
        c.label("too many blocks for the ledger");
        return;
    }
    bool few = D <= 200;
    c.label(few ? "few different pieces" : "many different pieces");
    c.nontrivial(n >= 20000);
    double fixed = 4e6 + 1100.0 * std::min<uint64_t>(D, 67777);
    for (int o = 0; o < 2; o++)
    {
        double per = few ? (w == 0 ? (o ? 3.8 : 4.6) : (o ? 5.8 : 6.8)) : (w == 0 ? 10 : 12);
        double pk = o ? owned.peak : kept.peak;
        if (getenv("VP_MEASURE"))
            fprintf(stderr, "M %d %s %d %zu few=%d D=%lu %.3f %.3f\n", o, fam_names[f], w, n, few, (unsigned long)D, pk / (fixed + per * n), (owned.after + n + 1 - kept.peak) / 1000);
        VP_REQUIRE(pk <= fixed + per * n, "peak of %.0f bytes for a text of %zu bytes (%lu different pieces, text %s), expected at most %.0f", pk, n, (unsigned long)D, o ? "handed over" : "kept", fixed + per * n);
    }
    VP_REQUIRE(owned.released, "the text was handed over but not released");
    VP_REQUIRE(owned.early, "the text was handed over but released only after the output had been allocated");
    VP_REQUIRE(owned.after + n + 1 <= kept.peak + 100000, "after the release of the text the peak is %.0f bytes; with the text kept it is %.0f for a text of %zu bytes", owned.after, kept.peak, n);
    VP_REQUIRE(owned.peak <= kept.peak + 100000, "the peak is %.0f bytes with the text handed over, %.0f with the text kept", owned.peak, kept.peak);
    // the file transform hands its text over
    if (s.chance(1, 3))
    {
        std::string d = fs_::fresh();
        fs_::put(d + "/in", t);
        inter::led_reset();
        inter::track = true;
        flbwt::bwt_file((d + "/in").c_str(), (d + "/out").c_str());
        inter::track = false;
        double pk = inter::led.peak_bytes;
        bool ok = inter::led.overflow == 0;
        inter::led_reset();
        fs_::wipe(d);
        c.label("file");
        if (ok)
            VP_REQUIRE(pk <= owned.peak + 100000, "the peak of the file transform is %.0f bytes, that of the transform in memory %.0f, for %zu bytes", pk, owned.peak, n);
    }
}
VP_PART(c20_peak, c20_peak, 900, 15000, 600, 0, 0, "families of texts up to five million bytes, each width, both ownership choices, files; non-trivial: at least 20000 bytes");
#endif

// C11: working storage and inputs beyond 2^31, 2^32, 2^39, 2^40.
#include "sut.hpp"
#include "inter.hpp"
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vp;
using sut::Bytes;

static const uint64_t ARENA = 1ull << 46;

struct Arena
{
    Arena() { inter::arena = inter::arena_init(ARENA); }
    ~Arena() { inter::arena_done(); }
};

static std::string mag(uint64_t v)
{
    int b = v ? 64 - __builtin_clzll(v) : 0;
    return b < 31 ? "<2^30" : b == 31 ? "2^30.." : b == 32 ? "2^31.." : b < 40 ? "2^32..2^39" : b == 40 ? "2^39.." : b < 45 ? "2^40..2^44" : "2^44..";
}

static sut::Result arena_call(const Bytes &t, uint64_t *sa = nullptr)
{
    Arena a;
    VP_REQUIRE(inter::arena, "harness: no address space");
    sut::Result r = sut::call(t, true);
    if (sa)
        *sa = inter::seen_sa_max;
    return r;
}

// pieces scattered over up to 2^46 bytes of storage
static void c11_arena(Src &s, Ctx &c)
{
    inter::lib_reset();
    Bytes t = gen::text(s, 3000, &c);
    inter::ht_size = 1 + s.range(0, s.chance(1, 2) ? 20 : 2000);
    if (inter::ht_size > t.size() / 2 + 1)
        inter::ht_size = t.size() / 2 + 1;
    // at most one block per bucket
    uint64_t lim = (ARENA - (1 << 24)) / (inter::ht_size + 1);
    int maxbits = 63 - __builtin_clzll(lim);
    int b = 16 + s.range(0, maxbits - 17);
    if (s.chance(1, 2))
        b = maxbits - 1 - s.range(0, 3);
    inter::hb_size = (1ull << b) + s.range(0, (1ull << b) - 1);
    c.note("%lu buckets, growth %lu", (unsigned long)inter::ht_size, (unsigned long)inter::hb_size);
    uint64_t sa = 0;
    sut::Result r = arena_call(t, &sa);
    c.label("largest position " + mag(sa));
    for (int w = 0; w < 5; w++)
        if (inter::n_sais[w])
            c.label("width " + std::to_string(w == 0 ? 32 : w == 1 ? 40 : w == 2 ? 48 : w == 3 ? 56 : 64));
    c.nontrivial(gen::classify(t, c) && inter::arena_peak >= (1ull << 31));
    inter::lib_reset();
    sut::check(t, r, false);
}
VP_PART(c11_arena, c11_arena, 30000, 500000, 120, 0, 0, "texts whose pieces are stored up to 2^46 bytes apart; non-trivial: two or more S* substrings and storage beyond 2^31 bytes");

// the largest stored position exactly at, just below and just above the
// numbers where the representation changes
static void c11_edge(Src &s, Ctx &c)
{
    inter::lib_reset();
    Bytes t = gen::text(s, 1500, &c);
    if (s.chance(1, 2))
        inter::ht_size = 1;
    else
        inter::ht_size = 1 + s.range(0, 40);
    uint64_t h0 = 1 << 24;
    inter::hb_size = h0;
    uint64_t sa0 = 0;
    sut::Result r = arena_call(t, &sa0);
    uint64_t blocks = (inter::arena_peak + (h0 / 2)) / h0;
    if (blocks == 0)
    {
        c.label("no storage used");
        return;
    }
    int bit = s.pick<int>({31, 32, 39, 40, 31, 39, 33, 41, 44, 45});
    int64_t delta = (int64_t)s.range(0, 8) - 4;
    uint64_t target = (1ull << bit) + delta;
    VP_REQUIRE(sa0 > 0 || true, "unused");
    uint64_t h1 = target > sa0 ? h0 + (target - sa0) / blocks : h0;
    // the remainder cannot be hit with several blocks: that is fine
    inter::hb_size = h1;
    for (int w = 0; w < 5; w++)
        inter::n_sais[w] = 0;
    uint64_t sa = 0;
    r = arena_call(t, &sa);
    int64_t off = (int64_t)(sa - (1ull << bit));
    c.note("largest position 2^%d%+ld, %lu blocks", bit, (long)off, (unsigned long)blocks);
    c.label("2^" + std::to_string(bit) + (off < -64 || off > 64 ? " missed" : off < -1 ? " below" : off == -1 ? " -1" : off == 0 ? " exact" : off == 1 ? " +1" : " above"));
    c.key(bit * 1000 + off);
    gen::classify(t, c);
    c.nontrivial(off >= -64 && off <= 64);
    inter::lib_reset();
    sut::check(t, r, false);
}
VP_PART(c11_edge, c11_edge, 20000, 400000, 120, 0, 0, "largest stored position steered to 2^31, 2^32, 2^33, 2^39..2^45 +-4; non-trivial: within 64 of the number");

// ------------------------------------------------------ real huge texts
static uint64_t total(const ref::Rle &r)
{
    uint64_t n = 0;
    for (auto &x : r)
        n += x.n;
    return n;
}
static std::string show(const ref::Rle &r)
{
    std::string s;
    char b[64];
    for (auto &x : r)
    {
        snprintf(b, sizeof b, "%02x{%lu} ", x.c, (unsigned long)x.n);
        s += b;
    }
    return s;
}
static bool all_equal(const uint8_t *p, uint64_t n, uint8_t c)
{
    while (n && ((uintptr_t)p & 7))
    {
        if (*p != c)
            return false;
        p++, n--;
    }
    uint64_t w = 0x0101010101010101ull * c;
    const uint64_t *q = (const uint64_t *)p;
    while (n >= 8)
    {
        if (*q != w)
            return false;
        q++, n -= 8;
    }
    p = (const uint8_t *)q;
    while (n--)
        if (*p++ != c)
            return false;
    return true;
}
// a run-length text of n bytes; zero_only: only the zero runs are long
static ref::Rle rle_text(Src &s, uint64_t n, bool zero_only, bool one_piece = false)
{
    ref::Rle r;
    auto shortpart = [&]() {
        size_t k = 1 + s.range(0, 6);
        for (size_t i = 0; i < k; i++)
            ref::push(r, s.pick<uint8_t>({0, 1, 'a', 'b', 254, 255}), 1 + s.range(0, 3));
    };
    if (one_piece)
    { // the long run lies in a single piece; further pieces are stored behind it
        uint8_t c = zero_only ? 0 : s.pick<uint8_t>({'b', 'c', 2, 'd'});
        if (s.chance(1, 2))
            shortpart();
        ref::push(r, c + 3, 1 + s.range(0, 3));
        bool l = c && s.chance(1, 2); // the run falls to the next character or rises
        ref::push(r, l ? c - 2 : c, 1);
        ref::push(r, c, n - (l ? 0 : 1));
        ref::push(r, l ? c - 1 : c + 2, 1 + s.range(0, 3));
        if (!l)
            ref::push(r, c + 1, 1 + s.range(0, 2));
        ref::push(r, c + 4, 1 + s.range(0, 3));
        size_t k = s.range(0, 4);
        for (size_t i = 0; i < k; i++)
        {
            ref::push(r, c + 1, 1 + s.range(0, 2));
            ref::push(r, c + 5, 1 + s.range(0, 2));
        }
        return r;
    }
    size_t m = 1 + s.range(0, 2);
    uint64_t left = n;
    for (size_t i = 0; i < m; i++)
    {
        if (i || s.chance(2, 3))
            shortpart();
        uint64_t k = i + 1 == m ? left : left / (2 + s.range(0, 2)) + s.range(0, 1000);
        uint8_t c = zero_only ? 0 : s.pick<uint8_t>({'a', 'b', 1, 254, 255, 0});
        ref::push(r, c, k);
        left -= k;
    }
    if (s.chance(2, 3))
        shortpart();
    return r;
}

// streaming check of an output file against the run-length transform
struct Checker
{
    const ref::Rle *e;
    uint64_t last, n;
    int fd;
    uint64_t got = 0;
    size_t run = 0;
    uint64_t in_run = 0;
    uint8_t head[8];
    std::string err;
    void feed(const uint8_t *p, uint64_t k)
    {
        while (k && got < 8)
        {
            head[got++] = *p++;
            k--;
            if (got == 8)
            {
                uint64_t v = 0;
                for (int i = 0; i < 8; i++)
                    v = v << 8 | head[i];
                if (v != last && err.empty())
                    err = "rank in the file is " + std::to_string(v) + ", expected " + std::to_string(last);
            }
        }
        while (k)
        {
            if (run == e->size())
            {
                if (err.empty())
                    err = "output is too long";
                got += k;
                return;
            }
            uint64_t m = std::min(k, (*e)[run].n - in_run);
            if (err.empty() && !all_equal(p, m, (*e)[run].c))
                err = "wrong byte in the output between offsets " + std::to_string(got) + " and " + std::to_string(got + m);
            p += m;
            k -= m;
            got += m;
            in_run += m;
            if (in_run == (*e)[run].n)
                run++, in_run = 0;
        }
    }
    static void *main(void *v)
    {
        Checker *c = (Checker *)v;
        static uint8_t buf[1 << 20];
        ssize_t k;
        while ((k = read(c->fd, buf, sizeof buf)) > 0)
            c->feed(buf, k);
        return nullptr;
    }
};

static void huge_file(Src &s, Ctx &c, uint64_t n, bool one)
{
    ref::Rle t = rle_text(s, n, true, one), e;
    uint64_t last, N = total(t);
    c.note("file %s n=%lu", show(t).c_str(), (unsigned long)N);
    c.key(N);
    ref::bwt_rle(t, e, last);
    std::string in = scratch() + "/in", out = scratch() + "/fifo";
    unlink(in.c_str());
    unlink(out.c_str());
    int fd = open(in.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    VP_REQUIRE(fd >= 0, "harness: cannot create the input file");
    uint64_t at = 0;
    for (auto &x : t)
    {
        if (x.c || x.n < 4096)
        {
            Bytes b(x.n, x.c);
            VP_REQUIRE(pwrite(fd, b.data(), b.size(), at) == (ssize_t)b.size(), "harness: cannot write the input file");
        }
        at += x.n;
    }
    VP_REQUIRE(ftruncate(fd, N) == 0, "harness: cannot size the input file");
    close(fd);
    VP_REQUIRE(mkfifo(out.c_str(), 0600) == 0, "harness: mkfifo");
    Checker ch;
    ch.e = &e;
    ch.last = last;
    ch.n = N;
    ch.fd = open(out.c_str(), O_RDONLY | O_NONBLOCK);
    VP_REQUIRE(ch.fd >= 0, "harness: open fifo");
    int keep = open(out.c_str(), O_WRONLY); // reader does not see the end too early
    fcntl(ch.fd, F_SETFL, 0);
    fcntl(keep, F_SETPIPE_SZ, 1 << 20);
    pthread_t th;
    pthread_create(&th, nullptr, Checker::main, &ch);
    std::string ex;
    try
    {
        flbwt::bwt_file(in.c_str(), out.c_str());
    }
    catch (std::exception &x)
    {
        ex = x.what();
    }
    close(keep);
    pthread_join(th, nullptr);
    close(ch.fd);
    unlink(in.c_str());
    unlink(out.c_str());
    if (ex.find("malloc") != std::string::npos || ex.find("bad_alloc") != std::string::npos)
    {
        c.label("not enough memory");
        return;
    }
    VP_REQUIRE(ex.empty(), "exception: %s", ex.c_str());
    VP_REQUIRE(ch.err.empty(), "%s", ch.err.c_str());
    VP_REQUIRE(ch.got == N + 8, "output has %lu bytes, expected %lu", (unsigned long)ch.got, (unsigned long)(N + 8));
    c.nontrivial(true);
}
// rows of a result against the run-length transform (marked row left out)
static void check_rows(const sut::Result &r, const ref::Rle &e, uint64_t last)
{
    VP_REQUIRE(r.r && r.r->BWT, "no result");
    VP_REQUIRE(r.r->last == last, "rank is %lu, expected %lu", (unsigned long)r.r->last, (unsigned long)last);
    uint64_t row = 0;
    for (auto &x : e)
    {
        uint64_t k = x.n;
        if (row <= last && last < row + k)
        {
            uint64_t a = last - row;
            VP_REQUIRE(all_equal(r.r->BWT + row, a, x.c), "wrong row between %lu and %lu", (unsigned long)row, (unsigned long)(row + a));
            row += a + 1;
            k -= a;
        }
        VP_REQUIRE(all_equal(r.r->BWT + row, k, x.c), "wrong row between %lu and %lu", (unsigned long)row, (unsigned long)(row + k));
        row += k;
    }
}
static void huge_mem(Src &s, Ctx &c, uint64_t n, bool one)
{
    ref::Rle t = rle_text(s, n, false, one), e;
    uint64_t last, N = total(t);
    c.note("text %s n=%lu", show(t).c_str(), (unsigned long)N);
    c.key(N);
    ref::bwt_rle(t, e, last);
    uint8_t *p = (uint8_t *)malloc(N + 1);
    if (!p)
    {
        c.label("not enough memory");
        return;
    }
    uint64_t at = 0;
    for (auto &x : t)
    {
        memset(p + at, x.c, x.n);
        at += x.n;
    }
    p[N] = 0;
    sut::Result r;
    try
    {
        r = sut::Result(flbwt::bwt_string(p, N, true));
    }
    catch (std::bad_alloc &)
    {
        c.label("not enough memory");
        return;
    }
    check_rows(r, e, last);
    c.nontrivial(true);
}
static void c11_real(Src &s, Ctx &c)
{
    inter::lib_reset();
    uint64_t i = s.index(0);
    uint64_t d = s.range(0, 3000);
    bool one = i < 2 || s.chance(1, 2);
    if (one)
        c.label("a single piece of this length");
    switch (i % 4)
    {
    case 0:
        c.label("file beyond 2^32");
        huge_file(s, c, (1ull << 32) + d, one);
        break;
    case 1:
        c.label("text beyond 2^31");
        huge_mem(s, c, (1ull << 31) + (one ? 1 : -1500) + d, one);
        break;
    case 2:
        c.label("text beyond 2^32");
        huge_mem(s, c, (1ull << 32) + (one ? 1 : -1500) + d, one);
        break;
    default:
        c.label("file beyond 2^31");
        huge_file(s, c, (1ull << 31) + (one ? 1 : -1500) + d, one);
    }
}
VP_PART(c11_real, c11_real, 2, 12, 2400, 2, 0, "run-length texts and files of more than 2^31 and 2^32 bytes, closed-form oracle; every case is non-trivial");
// the same code on texts small enough for exact self checks of the harness
static void c11_rle(Src &s, Ctx &c)
{
    inter::lib_reset();
    uint64_t n = 1000 + s.range(0, 5000000);
    bool one = s.chance(1, 3);
    if (s.chance(1, 2))
        huge_file(s, c, n, one);
    else
        huge_mem(s, c, n, one);
}
VP_PART(c11_rle, c11_rle, 120, 1500, 300, 0, 8192, "run-length texts and files up to 5 MB through the same harness; every case is non-trivial");

// ------------------------------------------------ periodic texts u v^k w
// The runs of the transform of u v^k w (marked row as a run of its own) keep
// their characters and their lengths grow by constants once k is large
// enough.  The oracle takes four small k, requires exactly that and
// extrapolates; c11_period compares the extrapolation with the naive
// transform at larger k.
struct XRun
{
    int c; // 256: the marked row
    uint64_t n;
};
static Bytes rep(const Bytes &u, const Bytes &v, uint64_t k, const Bytes &w)
{
    Bytes t = u;
    t.reserve(u.size() + k * v.size() + w.size() + 1);
    for (uint64_t i = 0; i < k; i++)
        t.insert(t.end(), v.begin(), v.end());
    t.insert(t.end(), w.begin(), w.end());
    return t;
}
static std::vector<XRun> xruns(const Bytes &t)
{
    Bytes out;
    uint64_t last;
    ref::bwt(t, out, last);
    std::vector<XRun> r;
    for (uint64_t i = 0; i < out.size(); i++)
    {
        int c = i == last ? 256 : out[i];
        if (!r.empty() && r.back().c == c)
            r.back().n++;
        else
            r.push_back({c, 1});
    }
    return r;
}
static bool extrapolate(const Bytes &u, const Bytes &v, const Bytes &w, uint64_t k, ref::Rle &e, uint64_t &last)
{
    uint64_t k0 = 4 + (u.size() + w.size()) / v.size();
    std::vector<XRun> x[4];
    for (int i = 0; i < 4; i++)
    {
        x[i] = xruns(rep(u, v, k0 + i, w));
        if (x[i].size() != x[0].size())
            return false;
    }
    e.clear();
    uint64_t row = 0;
    last = ~0ull;
    for (size_t j = 0; j < x[0].size(); j++)
    {
        uint64_t d = x[1][j].n - x[0][j].n;
        for (int i = 1; i < 4; i++)
            if (x[i][j].c != x[0][j].c || x[i][j].n - x[i - 1][j].n != d)
                return false;
        uint64_t n = x[0][j].n + d * (k - k0);
        if (x[0][j].c == 256)
            last = row;
        else
            ref::push(e, x[0][j].c, n);
        row += n;
    }
    return row == u.size() + w.size() + k * v.size() + 1 && last != ~0ull;
}
static void period_parts(Src &s, Ctx &c, Bytes &u, Bytes &v, Bytes &w, bool sparse)
{
    if (sparse || s.chance(1, 3))
    { // few long pieces
        size_t runs = 2 + s.range(0, 6);
        for (size_t i = 0; i < runs; i++)
        {
            size_t k = i % 2 ? 300 + s.range(0, 700) : 1 + s.range(0, 60);
            uint8_t ch = i % 2 ? s.pick<uint8_t>({'m', 'n', 'o'}) : s.pick<uint8_t>({'b', 'c', 'a', 'd'});
            v.insert(v.end(), k, ch);
        }
    }
    else
        v = gen::text(s, 1 + s.range(0, 120), nullptr);
    if (v.empty())
        v.push_back('b');
    auto side = [&](Bytes &o) {
        size_t k = s.weighted({2, 3, 3});
        if (k == 0)
            return;
        if (k == 1)
        {
            size_t m = 1 + s.range(0, 4);
            for (size_t i = 0; i < m; i++)
                o.push_back(s.pick<uint8_t>({'z', 'y', 'a', 'b', 'm', 'n', 255, 0, 254, 1}));
        }
        else
        { // a part of the period, perhaps broken off by another character
            size_t a = s.range(0, v.size() - 1), b = s.range(a, v.size() - 1);
            o.assign(v.begin() + a, v.begin() + b + 1);
            if (s.chance(1, 2))
                o.push_back(s.pick<uint8_t>({'z', 'a', 0, 255}));
        }
    };
    side(u);
    side(w);
}
static void period_case(Ctx &c, const Bytes &u, const Bytes &v, const Bytes &w, uint64_t k, bool naive)
{
    c.note("%s then %lu times %s then %s", ref::show(u).c_str(), (unsigned long)k, ref::show(v).c_str(), ref::show(w).c_str());
    ref::Rle e;
    uint64_t last;
    if (!extrapolate(u, v, w, k, e, last))
    {
        c.label("runs do not grow evenly");
        return;
    }
    uint64_t n = u.size() + w.size() + k * v.size();
    c.key(n);
    if (naive)
    { // is the oracle right?
        Bytes t = rep(u, v, k, w), o;
        uint64_t l2, row = 0;
        ref::bwt(t, o, l2);
        VP_REQUIRE(l2 == last, "harness: extrapolated rank %lu, naive %lu", (unsigned long)last, (unsigned long)l2);
        for (auto &x : e)
            for (uint64_t i = 0; i < x.n; i++, row++)
            {
                row += row == last;
                VP_REQUIRE(o[row] == x.c, "harness: extrapolated row %lu is wrong", (unsigned long)row);
            }
    }
    uint8_t *p = (uint8_t *)malloc(n + 1);
    if (!p)
    {
        c.label("not enough memory");
        return;
    }
    memcpy(p, u.data(), u.size());
    for (uint64_t i = 0, at = u.size(); i < k; i++, at += v.size())
        memcpy(p + at, v.data(), v.size());
    memcpy(p + n - w.size(), w.data(), w.size());
    p[n] = 0;
    c.label(last >= (1ull << 32) ? "rank beyond 2^32" : last >= (1ull << 31) ? "rank beyond 2^31" : last == n ? "rank n" : "other rank");
    sut::Result r;
    try
    {
        r = sut::Result(flbwt::bwt_string(p, n, true));
    }
    catch (std::bad_alloc &)
    {
        c.label("not enough memory");
        return;
    }
    check_rows(r, e, last);
    c.nontrivial(true);
}
static void c11_period(Src &s, Ctx &c)
{
    inter::lib_reset();
    Bytes u, v, w;
    period_parts(s, c, u, v, w, false);
    bool naive = s.chance(1, 2);
    uint64_t k = 12 + (naive ? s.range(0, 3000) / v.size() : s.range(0, s.chance(1, 10) ? 3000000 : 100000) / v.size());
    period_case(c, u, v, w, k, naive);
}
VP_PART(c11_period, c11_period, 3000, 40000, 300, 0, 8192, "texts u v^k w, runs extrapolated from small k (half of the cases also against the naive transform); non-trivial: the runs grow evenly");
static void c11_preal(Src &s, Ctx &c)
{
    inter::lib_reset();
    uint64_t i = s.index(0) % 20;
    static const uint64_t WM[4] = {0, 1ull << 39, 1ull << 47, 1ull << 55};
    // each width, each kind of text
    int width = i == 2 ? 1 : i == 3 ? 2 : i == 4 ? 3 : i < 2 ? 0 : i % 4;
    inter::sa_raise = WM[width];
    c.label("width class " + std::to_string(width ? width + 1 : 0));
    c.note("width class %d", width);
    Bytes u, v, w;
    do
    {
        u.clear(), v.clear(), w.clear();
        period_parts(s, c, u, v, w, i < 5 || i % 4 != 3);
        // the whole text is the last row, found in either scan, or anything
        if (i % 4 == 0 || (i >= 2 && i <= 4 && s.chance(1, 2)))
            u = {'y', 'z'};
        else if (i % 4 == 1 || (i >= 2 && i <= 4))
            u = {'z', (uint8_t)s.pick<int>({'a', 'b', 'c'})};
    } while (v.size() < 20);
    uint64_t n = (1ull << ((i >= 2 && i <= 4) || i >= 8 ? 32 : 31)) + 5000 + s.range(0, 100000);
    period_case(c, u, v, w, n / v.size() + 1, false);
}
VP_PART(c11_preal, c11_preal, 5, 24, 2400, 3, 0, "periodic texts of more than 2^31 bytes whose pieces need little storage, so that 32 bit indices are used, and texts of more than 2^32 bytes with wider ones that are forced; every case is non-trivial");

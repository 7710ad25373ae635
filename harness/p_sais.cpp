// C12: the five suffix sorters on integer sequences.
#include "vp.hpp"
#include "ref.hpp"
#include "gen.hpp"
#include "inter.hpp"
#include <memory>
#include <string.h>
#include "packed_array.hpp"
#include "sais32bit.hpp"
#include "sais40bit.hpp"
#include "sais48bit.hpp"
#include "sais56bit.hpp"
#include "sais64bit.hpp"
using namespace vp;
typedef std::vector<uint32_t> Seq;

static const int BITS[5] = {32, 40, 48, 56, 64};

// An array of n elements whose surroundings are checked.
template <class V> struct Arr
{
    std::vector<V> a;
    size_t n;
    static const size_t G = 24;
    Arr(size_t n_, uint8_t fill) : n(n_)
    {
        a.resize(n + 2 * G);
        memset(a.data(), fill, a.size() * sizeof(V));
        for (size_t i = 0; i < G; i++)
            a[i] = a[G + n + i] = (V)0xA5A5A5A5A5A5A5A5ull;
    }
    V *p() { return a.data() + G; }
    bool intact() const
    {
        for (size_t i = 0; i < G; i++)
            if (a[i] != (V)0xA5A5A5A5A5A5A5A5ull || a[G + n + i] != (V)0xA5A5A5A5A5A5A5A5ull)
                return false;
        return true;
    }
};

// d == 0: the sequence is given as plain integers of the index width
static std::vector<int64_t> sorted_by(int w, const Seq &t, uint64_t k, uint64_t fs, int d, uint8_t fill)
{
    size_t n = t.size(), m = n + fs;
    std::unique_ptr<flbwt::PackedArray> pa;
    const uint8_t *T = nullptr;
    uint8_t cs = BITS[w];
    if (d)
    {
        cs = d;
        pa.reset(new flbwt::PackedArray(n + 1, d));
        pa->set_value(0, d >= 1 ? 1 : 0); // not part of the sequence
        for (size_t i = 0; i < n; i++)
            pa->set_value(i + 1, t[i]);
        T = (const uint8_t *)pa->get_raw_arr_pointer();
    }
    std::vector<int64_t> r(n);
    bool ok = true;
    switch (w)
    {
    case 0:
    {
        Arr<int32_t> sa(m, fill), ta(d ? 0 : n, fill);
        for (size_t i = 0; i < n && !d; i++)
            ta.p()[i] = t[i];
        flbwt::sais_32bit(d ? T : (const uint8_t *)ta.p(), sa.p(), fs, n, k, cs);
        for (size_t i = 0; i < n; i++)
            r[i] = sa.p()[i];
        ok = sa.intact() && ta.intact();
        break;
    }
    case 1:
    {
        Arr<uint32_t> L(m, fill), tl(d ? 0 : n, fill);
        Arr<int8_t> U(m, fill), tu(d ? 0 : n, fill);
        for (size_t i = 0; i < n && !d; i++)
            flbwt::set_40bit_value(tl.p(), tu.p(), i, t[i]);
        flbwt::sais_40bit(T, d ? nullptr : tl.p(), d ? nullptr : tu.p(), L.p(), U.p(), fs, n, k, cs);
        for (size_t i = 0; i < n; i++)
            r[i] = flbwt::get_40bit_value(L.p(), U.p(), i);
        ok = L.intact() && U.intact() && tl.intact() && tu.intact();
        break;
    }
    case 2:
    {
        Arr<uint32_t> L(m, fill), tl(d ? 0 : n, fill);
        Arr<int16_t> U(m, fill), tu(d ? 0 : n, fill);
        for (size_t i = 0; i < n && !d; i++)
            flbwt::set_48bit_value(tl.p(), tu.p(), i, t[i]);
        flbwt::sais_48bit(T, d ? nullptr : tl.p(), d ? nullptr : tu.p(), L.p(), U.p(), fs, n, k, cs);
        for (size_t i = 0; i < n; i++)
            r[i] = flbwt::get_48bit_value(L.p(), U.p(), i);
        ok = L.intact() && U.intact() && tl.intact() && tu.intact();
        break;
    }
    case 3:
    {
        Arr<uint32_t> L(m, fill), tl(d ? 0 : n, fill);
        Arr<uint16_t> M(m, fill), tm(d ? 0 : n, fill);
        Arr<int8_t> U(m, fill), tu(d ? 0 : n, fill);
        for (size_t i = 0; i < n && !d; i++)
            flbwt::set_56bit_value(tl.p(), tm.p(), tu.p(), i, t[i]);
        flbwt::sais_56bit(T, d ? nullptr : tl.p(), d ? nullptr : tm.p(), d ? nullptr : tu.p(), L.p(), M.p(), U.p(), fs, n, k, cs);
        for (size_t i = 0; i < n; i++)
            r[i] = flbwt::get_56bit_value(L.p(), M.p(), U.p(), i);
        ok = L.intact() && M.intact() && U.intact() && tl.intact() && tm.intact() && tu.intact();
        break;
    }
    default:
    {
        Arr<int64_t> sa(m, fill), ta(d ? 0 : n, fill);
        for (size_t i = 0; i < n && !d; i++)
            ta.p()[i] = t[i];
        flbwt::sais_64bit(d ? T : (const uint8_t *)ta.p(), sa.p(), fs, n, k, cs);
        for (size_t i = 0; i < n; i++)
            r[i] = sa.p()[i];
        ok = sa.intact() && ta.intact();
    }
    }
    VP_REQUIRE(ok, "the %d bit sorter wrote outside its arrays", BITS[w]);
    return r;
}

// complete check without sorting: a permutation whose neighbours are in order
static void check_sa(const Seq &t, const std::vector<int64_t> &sa, int w)
{
    size_t n = t.size();
    std::vector<uint32_t> rank(n + 1, UINT32_MAX);
    for (size_t i = 0; i < n; i++)
    {
        VP_REQUIRE(sa[i] >= 0 && (size_t)sa[i] < n, "the %d bit sorter: entry %zu is %ld, length is %zu", BITS[w], i, (long)sa[i], n);
        VP_REQUIRE(rank[sa[i]] == UINT32_MAX, "the %d bit sorter: position %ld occurs twice (entries %u and %zu)", BITS[w], (long)sa[i], rank[sa[i]], i);
        rank[sa[i]] = i;
    }
    auto after = [&](size_t p) -> int64_t { return p + 1 < n ? (int64_t)rank[p + 1] : -1; };
    for (size_t i = 1; i < n; i++)
    {
        size_t a = sa[i - 1], b = sa[i];
        VP_REQUIRE(t[a] < t[b] || (t[a] == t[b] && after(a) < after(b)), "the %d bit sorter: suffix %zu stands before suffix %zu (entry %zu)", BITS[w], a, b, i);
    }
}
static int least_bits(uint64_t k)
{
    int d = 1;
    while (d < 64 && (1ull << d) < k)
        d++;
    return d;
}
static std::string show(const Seq &t)
{
    std::string s = "[";
    for (size_t i = 0; i < t.size() && i < 60; i++)
        s += (i ? " " : "") + std::to_string(t[i]);
    return s + (t.size() > 60 ? " ...] n=" : "] n=") + std::to_string(t.size());
}

static void c12_exh(Src &s, Ctx &c)
{
    static const int PLQ[][2] = {{2, 11}, {3, 7}, {4, 5}, {5, 5}}, PLT[][2] = {{2, 15}, {3, 10}, {4, 8}, {5, 7}};
    auto &P = thorough() ? PLT : PLQ;
    inter::lib_reset();
    uint64_t tot = 0;
    for (auto &p : P)
    {
        uint64_t x = p[0];
        for (int l = 1; l <= p[1]; l++, x *= p[0])
            tot += x;
    }
    uint64_t i = s.index(0), j = i % tot, v = i / tot;
    int w = v % 5;
    Seq t;
    uint64_t k = 2;
    for (auto &p : P)
    {
        uint64_t x = p[0];
        bool found = false;
        for (int l = 1; l <= p[1] && !found; l++, x *= p[0])
        {
            if (j < x)
            {
                found = true;
                k = p[0];
                t.resize(l);
                for (int q = l; q-- > 0; j /= k)
                    t[q] = j % k;
            }
            else
                j -= x;
        }
        if (found)
            break;
    }
    uint64_t h = mix64(i), fs = 0;
    if (h & 1)
        fs = (h >> 8) % (3 * k + 2);
    int d = (h & 2) ? 0 : least_bits(k) + (h & 4 ? (h >> 24) % 5 : 0);
    c.note("width %d fs %lu element bits %d k %lu %s", BITS[w], (unsigned long)fs, d, (unsigned long)k, show(t).c_str());
    c.key(t.data(), t.size() * 4);
    c.key(w * 1000 + fs * 17 + d);
    c.nontrivial(t.size() >= 4);
    c.label(std::string("width ") + std::to_string(BITS[w]));
    c.label(d ? "packed" : "plain");
    c.label(fs == 0 ? "no workspace" : fs < k ? "workspace < k" : fs < 2 * k ? "workspace < 2k" : "workspace >= 2k");
    check_sa(t, sorted_by(w, t, k, fs, d, h >> 40), w);
}
VP_PART(c12_exh, c12_exh, 500000, 2500000, 120, 0, 4096, "all sequences over 2-5 symbols up to a length in each width, workspace and encoding by index; non-trivial: length >= 4");

static Seq sequence(Src &s, size_t maxn, Ctx &c)
{
    Seq t;
    size_t n;
    switch (s.weighted({5, 3, 3, 2, 2, 2, 2}))
    {
    case 0:
    {
        gen::Bytes b = gen::text(s, maxn, &c);
        // ranks of the bytes
        bool seen[256] = {};
        for (uint8_t x : b)
            seen[x] = true;
        int r[256], q = 0;
        for (int i = 0; i < 256; i++)
            r[i] = seen[i] ? q++ : 0;
        for (uint8_t x : b)
            t.push_back(r[x]);
        break;
    }
    case 1:
    { // random over a larger alphabet
        c.label("family:wide");
        n = gen::length(s, maxn);
        uint64_t k = 1 + s.range(0, s.chance(1, 3) ? 70000 : 600);
        Prng r(s.u64());
        for (size_t i = 0; i < n; i++)
            t.push_back(r.below(k));
        break;
    }
    case 2:
    { // permutation or near permutation
        c.label("family:permutation");
        n = gen::length(s, maxn);
        for (size_t i = 0; i < n; i++)
            t.push_back(i);
        Prng r(s.u64());
        switch (s.range(0, 3))
        {
        case 0: break;
        case 1: std::reverse(t.begin(), t.end()); break;
        default:
            for (size_t i = n; i > 1; i--)
                std::swap(t[i - 1], t[r.below(i)]);
        }
        uint64_t g = 1 + s.range(0, 3);
        for (auto &x : t)
            x /= g;
        break;
    }
    case 3:
    { // tower: reductions nested many levels deep
        c.label("family:deep");
        size_t a = 2 + s.range(0, 2), top = 3 + s.range(0, 30), depth = 1 + s.range(0, 9);
        Prng r(s.u64());
        for (size_t i = 0; i < top; i++)
            t.push_back(r.below(a));
        for (size_t d = 0; d < depth && t.size() * 2 < maxn; d++)
        {
            Seq v;
            uint32_t gap = 1 + (s.chance(1, 4) ? s.range(0, 4) : 0);
            for (uint32_t x : t)
            {
                v.push_back(0);
                v.push_back(x + gap);
            }
            t.swap(v);
        }
        break;
    }
    case 4:
    { // long period
        c.label("family:bigperiod");
        n = gen::length(s, maxn);
        size_t p = 1 + s.range(0, 500);
        uint64_t k = 1 + s.range(0, 400);
        Prng r(s.u64());
        Seq u(p);
        for (auto &x : u)
            x = r.below(k);
        for (size_t i = 0; i < n; i++)
            t.push_back(u[i % p]);
        break;
    }
    case 5:
    { // small explicit
        c.label("family:explicit");
        n = 1 + s.range(0, 20);
        uint64_t k = 1 + s.range(0, 8);
        for (size_t i = 0; i < n; i++)
            t.push_back(s.range(0, k - 1));
        break;
    }
    default:
    { // runs of wide symbols
        c.label("family:wideruns");
        size_t runs = 1 + s.range(0, 40);
        uint64_t k = 1 + s.range(0, 400);
        for (size_t i = 0; i < runs && t.size() < maxn; i++)
            t.insert(t.end(), s.chance(1, 3) ? 1 + s.range(0, 300) : 1 + s.range(0, 4), s.range(0, k - 1));
    }
    }
    if (t.empty())
        t.push_back(0);
    if (t.size() > maxn)
        t.resize(maxn);
    // as the transform builds it: the first is the unique largest, the last the unique least
    switch (s.weighted({3, 3, 1, 1}))
    {
    case 1:
    {
        uint32_t mx = 0;
        for (auto &x : t)
            mx = std::max(mx, ++x);
        t.insert(t.begin(), mx + 1);
        t.push_back(0);
        c.label("with markers");
        break;
    }
    case 2:
        for (auto &x : t)
            x++;
        t.push_back(0);
        c.label("with end marker");
        break;
    case 3: t.push_back(0); break;
    default: break;
    }
    return t;
}
static void run_one(Src &s, Ctx &c, size_t maxn, bool allwidths)
{
    inter::lib_reset();
    Seq t = sequence(s, maxn, c);
    uint64_t k = 1 + *std::max_element(t.begin(), t.end());
    if (s.chance(1, 4))
        k += s.range(0, s.chance(1, 2) ? 3 : 1000);
    uint64_t fs = 0;
    switch (s.weighted({4, 1, 1, 1, 1, 1, 1}))
    {
    case 1: fs = k - 1; break;
    case 2: fs = k; break;
    case 3: fs = 2 * k - 1; break;
    case 4: fs = 2 * k; break;
    case 5: fs = s.range(0, 3 * k); break;
    case 6: fs = s.range(0, t.size()); break;
    default: break;
    }
    int d = 0, lb = least_bits(k);
    if (!s.chance(1, 3))
    {
        d = lb;
        if (s.chance(1, 2))
            d = lb + s.range(0, 64 - lb);
    }
    uint8_t fill = s.byte();
    int w0 = s.range(0, 4);
    c.note("fs %lu element bits %d k %lu %s", (unsigned long)fs, d, (unsigned long)k, show(t).c_str());
    c.key(t.data(), t.size() * 4);
    c.key(w0 * 1000003 + fs * 67 + d);
    size_t lms = 0;
    bool up = false;
    for (size_t i = t.size() - 1; i-- > 0;)
    {
        if (t[i] < t[i + 1])
            up = true;
        else if (t[i] > t[i + 1])
        {
            lms += up;
            up = false;
        }
    }
    c.nontrivial(lms >= 2);
    c.label(d == 0 ? "plain" : d == 1 ? "packed 1" : d < 8 ? "packed 2-7" : d < 16 ? "packed 8-15" : d < 32 ? "packed 16-31" : d < 64 ? "packed 32-63" : "packed 64");
    c.label(fs == 0 ? "no workspace" : fs < k ? "workspace < k" : fs < 2 * k ? "workspace < 2k" : "workspace >= 2k");
    for (int i = 0; i < (allwidths ? 5 : 2); i++)
    {
        int w = (w0 + i) % 5;
        // cs equal to the index width means plain integers
        int dd = d == BITS[w] ? d - 1 : d;
        if (d && dd < lb)
            continue;
        check_sa(t, sorted_by(w, t, k, fs, dd, fill), w);
    }
}
static void c12_rand(Src &s, Ctx &c) { run_one(s, c, 6000, true); }
VP_PART(c12_rand, c12_rand, 100000, 1200000, 120, 0, 4096, "structured integer sequences up to 6000 elements in all five widths; non-trivial: at least two LMS positions");
static void c12_big(Src &s, Ctx &c) { run_one(s, c, 400000, false); }
VP_PART(c12_big, c12_big, 5000, 40000, 300, 0, 8192, "structured integer sequences up to 400000 elements in two widths; non-trivial: at least two LMS positions");
static void c12_giant(Src &s, Ctx &c)
{ // packed input of more than 2^32 bits
    inter::lib_reset();
    int w = s.index(5), d = 62 + s.range(0, 2);
    if (d == BITS[w])
        d = 63;
    uint64_t n = (1ull << 32) / d + 1000 + s.range(0, 200000), k = 2 + s.range(0, 6);
    Prng r(s.u64());
    Seq t(n);
    // runs make it quick to sort
    for (size_t i = 0; i < n;)
    {
        uint32_t x = r.below(k);
        for (uint64_t l = 1 + r.below(r.below(3) ? 3 : 40); l-- && i < n;)
            t[i++] = x;
    }
    c.note("width %d element bits %d n %lu k %lu", BITS[w], d, (unsigned long)n, (unsigned long)k);
    c.key(w);
    c.nontrivial(true);
    check_sa(t, sorted_by(w, t, k, 0, d, 0), w);
}
VP_PART(c12_giant, c12_giant, 5, 10, 800, 5, 0, "packed sequences of more than 2^32 bits, one per width; every case is non-trivial");

// Structured text generators.
#pragma once
#include "vp.hpp"
#include "ref.hpp"

namespace gen
{
typedef std::vector<uint8_t> Bytes;
using vp::Src;

inline uint64_t special_len(Src &s, uint64_t maxv)
{
    static const uint64_t base[] = {2, 3, 4, 7, 8, 16, 64, 128, 256, 512, 768, 1024, 1280, 2048, 4096, 8192, 16384, 32768, 65536, 131072};
    int m = 0;
    while (m < 20 && base[m] <= maxv)
        m++;
    if (m == 0)
        return 1;
    int64_t v = (int64_t)base[s.range(0, m - 1)] + (int64_t)s.range(0, 6) - 4;
    if (v < 1)
        v = 1;
    return std::min<uint64_t>(v, maxv);
}

// Alphabet: an increasing map of symbols 0..k-1 to bytes.
inline Bytes alphabet(Src &s, size_t k, vp::Ctx *c = nullptr)
{
    Bytes m(k);
    if (k > 256)
        k = 256;
    switch (s.weighted({4, 3, 3, 2, 3}))
    {
    case 0: // letters
        for (size_t i = 0; i < k; i++)
            m[i] = (k <= 26 ? 'a' : 0) + i;
        break;
    case 1: // from 0
        for (size_t i = 0; i < k; i++)
            m[i] = i;
        break;
    case 2: // up to 255
        for (size_t i = 0; i < k; i++)
            m[i] = 256 - k + i;
        break;
    case 3: // both ends
        for (size_t i = 0; i < k; i++)
            m[i] = i < (k + 1) / 2 ? i : 256 - k + i;
        break;
    default:
    { // random subset
        vp::Prng r(s.u64());
        std::vector<int> all(256);
        for (int i = 0; i < 256; i++)
            all[i] = i;
        for (size_t i = 0; i < k; i++)
            std::swap(all[i], all[i + r.below(256 - i)]);
        std::sort(all.begin(), all.begin() + k);
        for (size_t i = 0; i < k; i++)
            m[i] = all[i];
    }
    }
    (void)c;
    return m;
}

inline size_t sigma(Src &s)
{
    switch (s.weighted({6, 4, 2, 1, 2}))
    {
    case 0: return 2 + s.range(0, 2);
    case 1: return 3 + s.range(0, 7);
    case 2: return 1 + s.range(0, 1);
    case 3: return 12 + s.range(0, 120);
    default: return 256;
    }
}

inline size_t length(Src &s, size_t maxn)
{
    size_t hi;
    switch (s.weighted({5, 6, 5, 3, 2}))
    {
    case 0: hi = 12; break;
    case 1: hi = 120; break;
    case 2: hi = 1500; break;
    case 3: hi = 9000; break;
    default: hi = maxn;
    }
    return 1 + s.range(0, std::min(hi, maxn) - 1);
}

// --- families, symbols in [0,k)
inline void f_literal(Src &s, Bytes &o, size_t k, size_t maxn)
{
    size_t n = 1 + s.range(0, std::min<size_t>(maxn, s.chance(1, 3) ? 200 : 24) - 1);
    for (size_t i = 0; i < n; i++)
        o.push_back(s.range(0, k - 1));
}
inline void f_runs(Src &s, Bytes &o, size_t k, size_t maxn)
{
    size_t r = 1 + s.range(0, 30), start = o.size();
    for (size_t i = 0; i < r && o.size() - start < maxn; i++)
    {
        uint8_t c = s.range(0, k - 1);
        uint64_t n = s.chance(1, 2) ? special_len(s, maxn - (o.size() - start)) : 1 + s.range(0, 5);
        o.insert(o.end(), std::min<uint64_t>(n, maxn - (o.size() - start)), c);
    }
}
inline void f_random(Src &s, Bytes &o, size_t k, size_t maxn)
{
    size_t n = length(s, maxn);
    vp::Prng r(s.u64());
    if (s.chance(1, 4))
    { // skewed
        for (size_t i = 0; i < n; i++)
        {
            uint64_t x = r.below(k);
            o.push_back(r.below(x + 1));
        }
    }
    else
        for (size_t i = 0; i < n; i++)
            o.push_back(r.below(k));
}
inline void f_periodic(Src &s, Bytes &o, size_t k, size_t maxn)
{
    size_t p = 1 + s.range(0, s.chance(1, 4) ? 600 : 12);
    Bytes u;
    if (p <= 13)
        for (size_t i = 0; i < p; i++)
            u.push_back(s.range(0, k - 1));
    else
    {
        vp::Prng r(s.u64());
        for (size_t i = 0; i < p; i++)
            u.push_back(r.below(k));
    }
    size_t n = length(s, maxn), start = o.size();
    for (size_t i = 0; i < n; i++)
        o.push_back(u[i % p]);
    size_t mut = s.weighted({3, 2, 2, 1});
    for (size_t i = 0; i < mut; i++)
        o[start + s.range(0, n - 1)] = s.range(0, k - 1);
}
inline void f_words(Src &s, Bytes &o, size_t k, size_t maxn)
{
    size_t n = length(s, maxn), start = o.size();
    Bytes w;
    switch (s.range(0, 4))
    {
    case 0:
    { // Fibonacci
        Bytes a{0}, b{0, (uint8_t)(k > 1)};
        if (s.chance(1, 2))
            a = {(uint8_t)(k > 1)}, b = {(uint8_t)(k > 1), 0};
        while (b.size() < n)
        {
            Bytes t = b;
            t.insert(t.end(), a.begin(), a.end());
            a.swap(b);
            b.swap(t);
        }
        w = b;
        break;
    }
    case 1: // Thue-Morse over k letters
        for (size_t i = 0; i < n; i++)
        {
            size_t x = i, d = 0;
            while (x)
            {
                d += x % k == 0 && k > 1 ? 0 : (k > 1 ? x % k : 0);
                x /= k > 1 ? k : 2;
            }
            w.push_back(d % k);
        }
        break;
    case 2:
    { // ruler sequence, deep nesting
        bool inv = s.chance(1, 2);
        for (size_t i = 1; i <= n; i++)
        {
            size_t v = std::min<size_t>(__builtin_ctzll(i), k - 1);
            w.push_back(inv ? k - 1 - v : v);
        }
        break;
    }
    case 3:
    { // de Bruijn like (greedy LFSR by de Bruijn via Lyndon words)
        size_t kk = std::min<size_t>(k, 6), d = 2 + s.range(0, 5);
        std::vector<int> a(kk * d + d + 1, 0);
        // iterative FKM
        std::vector<int> lyn{-1};
        while (!lyn.empty() && w.size() < n)
        {
            lyn.back()++;
            if (d % lyn.size() == 0)
                for (int x : lyn)
                    w.push_back(x);
            size_t m = lyn.size();
            while (lyn.size() < d)
                lyn.push_back(lyn[lyn.size() - m]);
            while (!lyn.empty() && lyn.back() == (int)kk - 1)
                lyn.pop_back();
        }
        break;
    }
    default:
    { // random substitution iterated
        size_t kk = std::min<size_t>(k, 4);
        std::vector<Bytes> rule(kk);
        for (auto &r : rule)
        {
            size_t l = 1 + s.range(0, 3);
            for (size_t i = 0; i < l; i++)
                r.push_back(s.range(0, kk - 1));
        }
        w = {0};
        for (int it = 0; it < 20 && w.size() < n; it++)
        {
            Bytes v;
            for (uint8_t c : w)
            {
                v.insert(v.end(), rule[c].begin(), rule[c].end());
                if (v.size() > 2 * n)
                    break;
            }
            w.swap(v);
        }
    }
    }
    if (w.size() > n)
        w.resize(n);
    if (w.empty())
        w.push_back(0);
    if (s.chance(1, 6))
        std::reverse(w.begin(), w.end());
    o.resize(start);
    o.insert(o.end(), w.begin(), w.end());
}
// a string whose S* decomposition is nested to a chosen depth
inline void f_tower(Src &s, Bytes &o, size_t k, size_t maxn)
{
    if (k < 4)
        k = 4;
    size_t depth = 1 + s.range(0, 6);
    size_t top = 2 + s.range(0, s.chance(1, 2) ? 60 : 12);
    size_t a = 2 + s.range(0, 1);
    std::vector<uint32_t> w;
    vp::Prng r(s.u64());
    for (size_t i = 0; i < top; i++)
        w.push_back(r.below(a));
    size_t cur = a;
    for (size_t d = 0; d < depth && w.size() * 2 + 2 < maxn && cur + 1 < 250; d++)
    {
        std::vector<uint32_t> v;
        for (uint32_t x : w)
        {
            v.push_back(0);
            v.push_back(x + 1);
            if (r.below(16) == 0 && s.chance(1, 8))
                v.push_back(x + 1);
        }
        w.swap(v);
        cur++;
    }
    for (uint32_t x : w)
        if (x < 256)
            o.push_back(x);
}
// u distinct S* substrings, in shuffled order, some repeated
inline void f_distinct(Src &s, Bytes &o, size_t maxn)
{
    static const uint64_t counts[] = {1, 2, 3, 6, 7, 8, 14, 15, 16, 30, 31, 62, 63, 126, 127, 254, 255, 256, 510, 511, 512, 1022, 1023, 1024, 2047, 4095, 8191, 16383, 32767, 65534, 65535, 65536};
    size_t lim = 0;
    while (lim < 32 && counts[lim] * 4 + 8 < maxn)
        lim++;
    if (lim == 0)
    {
        o.push_back(0);
        return;
    }
    uint64_t u = counts[s.range(0, lim - 1)] + s.range(0, 2);
    uint64_t reps = s.range(0, 2);
    vp::Prng r(s.u64());
    std::vector<uint32_t> idx;
    for (uint64_t i = 0; i < u; i++)
        idx.push_back(i);
    for (uint64_t i = 0; i < reps * u && idx.size() * 4 < maxn; i++)
        idx.push_back(r.below(u));
    if (s.range(0, 2) != 2) // else: increasing order
        for (size_t i = idx.size(); i > 1; i--)
            std::swap(idx[i - 1], idx[r.below(i)]);
    for (uint32_t x : idx)
    {
        // word number x: 0 b c d with b >= c >= d >= 1
        o.push_back(0);
        if (x < 255)
            o.push_back(x + 1);
        else if (x < 255 + 255 * 128)
        {
            uint32_t y = x - 255, b = 1;
            while (y >= b)
                y -= b, b++;
            o.push_back(b);
            o.push_back(y + 1);
        }
        else
        {
            uint32_t y = x - 255 - 255 * 128, b = 1;
            while (y >= b * (b + 1) / 2)
                y -= b * (b + 1) / 2, b++;
            uint32_t c = 1;
            while (y >= c)
                y -= c, c++;
            o.push_back(b);
            o.push_back(c);
            o.push_back(y + 1);
        }
    }
}
// LZ-like: literals and copies
inline void f_copies(Src &s, Bytes &o, size_t k, size_t maxn)
{
    size_t ops = 1 + s.range(0, 40), start = o.size();
    for (size_t i = 0; i < ops && o.size() - start < maxn; i++)
    {
        size_t have = o.size() - start;
        if (have == 0 || s.chance(1, 3))
        {
            size_t l = 1 + s.range(0, 7);
            for (size_t j = 0; j < l; j++)
                o.push_back(s.range(0, k - 1));
        }
        else
        {
            size_t off = 1 + s.range(0, have - 1);
            size_t l = s.chance(1, 3) ? special_len(s, 4096) : 1 + s.range(0, 40);
            for (size_t j = 0; j < l && o.size() - start < maxn; j++)
                o.push_back(o[o.size() - off]);
        }
    }
}
// long S* substrings that share long prefixes and differ late
inline void f_longlms(Src &s, Bytes &o, size_t maxn)
{
    size_t m = 2 + s.range(0, 5), start = o.size();
    uint64_t L = special_len(s, std::max<size_t>(4, std::min<size_t>(70000, maxn / (m + 1))));
    for (size_t i = 0; i < m && o.size() - start + L + 3 < maxn; i++)
    {
        o.push_back(0);
        bool up = s.chance(1, 2);
        uint64_t l = L + s.range(0, 3);
        // run, optionally with one step inside (monotone, so still one substring)
        uint64_t step = s.chance(1, 2) ? s.range(0, l - 1) : l;
        for (uint64_t j = 0; j < l; j++)
            o.push_back(up ? (j < step ? 2 : 3) : (j < step ? 3 : 2));
    }
    o.push_back(s.range(0, 3));
}

// Every family's symbols, mapped to bytes by an increasing map.
inline Bytes text(Src &s, size_t maxn, vp::Ctx *c, int depth = 0)
{
    Bytes o;
    const char *fam = "";
    size_t k = sigma(s);
    size_t f = s.weighted({8, 6, 8, 5, 6, 5, 3, 6, 3, 4});
    size_t used_k = k;
    switch (f)
    {
    case 0: fam = "literal"; f_literal(s, o, k, maxn); break;
    case 1: fam = "runs"; f_runs(s, o, k, maxn); break;
    case 2: fam = "random"; f_random(s, o, k, maxn); break;
    case 3: fam = "periodic"; f_periodic(s, o, k, maxn); break;
    case 4: fam = "words"; f_words(s, o, k, maxn); break;
    case 5: fam = "tower"; f_tower(s, o, k, maxn); break;
    case 6: fam = "distinct"; f_distinct(s, o, maxn); break;
    case 7: fam = "copies"; f_copies(s, o, k, maxn); break;
    case 8: fam = "longlms"; f_longlms(s, o, maxn); break;
    default:
        fam = "concat";
        if (depth < 2 && maxn >= 8)
        {
            size_t m = 2 + s.range(0, 2);
            for (size_t i = 0; i < m; i++)
            {
                Bytes x = text(s, maxn / m, nullptr, depth + 1);
                o.insert(o.end(), x.begin(), x.end());
            }
        }
        else
            f_literal(s, o, k, maxn);
    }
    if (o.empty())
        o.push_back(0);
    for (uint8_t x : o)
        used_k = std::max<size_t>(used_k, (size_t)x + 1);
    if (f != 9)
    {
        Bytes m = alphabet(s, used_k);
        for (uint8_t &x : o)
            x = m[x];
    }
    // head and tail tweaks
    switch (s.weighted({12, 1, 1, 1, 1, 1}))
    {
    case 1: o.insert(o.end(), 1 + s.range(0, 4), 0); break;
    case 2: o.insert(o.begin(), s.chance(1, 2) ? special_len(s, 1100) : 1 + s.range(0, 3), 255); break;
    case 3: o.insert(o.begin(), s.chance(1, 2) ? special_len(s, 1100) : 1 + s.range(0, 3), 0); break;
    case 4: o.insert(o.end(), 1 + s.range(0, 4), 255); break;
    case 5: std::reverse(o.begin(), o.end()); break;
    default: break;
    }
    if (o.size() > maxn)
        o.resize(maxn);
    if (c && depth == 0)
    {
        c->label(std::string("family:") + fam);
        c->label(o.size() <= 2 ? "n:1-2" : o.size() <= 16 ? "n:3-16" : o.size() <= 256 ? "n:17-256" : o.size() <= 4096 ? "n:257-4096" : o.size() <= 65536 ? "n:4097-65536" : "n:>65536");
        bool has0 = memchr(o.data(), 0, o.size()) != nullptr, has255 = memchr(o.data(), 255, o.size()) != nullptr;
        if (has0)
            c->label("has byte 0");
        if (has255)
            c->label("has byte 255");
        c->key(o.data(), o.size());
        c->note("%s text %s", fam, ref::show(o).c_str());
    }
    return o;
}

// Classify by structure (cost O(n)); returns true when the text is non-trivial:
// it has at least two S* substrings.
inline bool classify(const Bytes &t, vp::Ctx &c)
{
    size_t n = t.size();
    if (n == 0)
        return false;
    bool nexts = false;
    size_t cnt = 0, q = n, maxl = 0;
    bool mult256 = false;
    for (size_t i = n - 1; i-- > 0;)
    {
        bool cur = t[i] < t[i + 1] || (t[i] == t[i + 1] && nexts);
        if (!cur && nexts)
        {
            cnt++;
            size_t l = q - (i + 1) + 1;
            maxl = std::max(maxl, l);
            mult256 = mult256 || l % 256 == 0;
            q = i + 1;
        }
        nexts = cur;
    }
    c.label(cnt == 0 ? "S*:0" : cnt == 1 ? "S*:1" : cnt < 256 ? "S*:2-255" : cnt < 65536 ? "S*:256-65535" : "S*:>=65536");
    if (maxl > 255)
        c.label("long S* substring (>255)");
    if (maxl > 65535)
        c.label("long S* substring (>65535)");
    if (mult256)
        c.label("S* length multiple of 256");
    if ((q + 1) % 256 == 0)
        c.label("head length multiple of 256");
    if (n > 1 && t[0] < t[1])
        c.label("head starts S");
    return cnt >= 2;
}

} // namespace gen

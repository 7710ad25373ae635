// Independent oracles.  Nothing here uses code of the library.
#pragma once
#include "vp.hpp"
#include <string.h>
#include <algorithm>
#include <vector>
#include <string>

namespace ref
{
typedef std::vector<uint8_t> Bytes;

inline std::string show(const uint8_t *t, size_t n, size_t maxn = 160)
{
    std::string s = "\"";
    char b[8];
    for (size_t i = 0; i < n && i < maxn; i++)
    {
        // runs of 6 or more are abbreviated
        size_t j = i;
        while (j < n && t[j] == t[i])
            j++;
        size_t run = j - i;
        if (t[i] >= 33 && t[i] < 127 && t[i] != '\\' && t[i] != '"' && t[i] != '{')
            s += (char)t[i];
        else
        {
            snprintf(b, sizeof b, "\\x%02x", t[i]);
            s += b;
        }
        if (run >= 6)
        {
            s += "{" + std::to_string(run) + "}";
            i = j - 1;
        }
    }
    s += n > maxn ? "...\"" : "\"";
    return s + " n=" + std::to_string(n);
}
inline std::string show(const Bytes &t, size_t maxn = 160) { return show(t.data(), t.size(), maxn); }

// Suffix array of an integer sequence (implicit smallest end marker, not
// included), by prefix doubling.
template <class V> std::vector<uint32_t> suffix_array(const V &t)
{
    size_t n = t.size();
    std::vector<uint32_t> sa(n), rk(n), tmp(n);
    for (size_t i = 0; i < n; i++)
        sa[i] = i;
    std::sort(sa.begin(), sa.end(), [&](uint32_t a, uint32_t b) { return t[a] < t[b]; });
    uint32_t r = 0;
    for (size_t i = 0; i < n; i++)
    {
        if (i && t[sa[i]] != t[sa[i - 1]])
            r++;
        rk[sa[i]] = r;
    }
    for (size_t k = 1; n && r + 1 < n; k *= 2)
    {
        auto key = [&](uint32_t a) { return a + k < n ? (int64_t)rk[a + k] : -1; };
        // sort inside groups of equal rank only
        for (size_t i = 0; i < n;)
        {
            size_t j = i + 1;
            while (j < n && rk[sa[j]] == rk[sa[i]])
                j++;
            if (j - i > 1)
                std::sort(sa.begin() + i, sa.begin() + j, [&](uint32_t a, uint32_t b) { return key(a) < key(b); });
            i = j;
        }
        r = 0;
        for (size_t i = 0; i < n; i++)
        {
            if (i && (rk[sa[i]] != rk[sa[i - 1]] || key(sa[i]) != key(sa[i - 1])))
                r++;
            tmp[sa[i]] = r;
        }
        rk.swap(tmp);
    }
    return sa;
}

// BWT of t followed by an end marker.  Row `last` holds 0.
inline void bwt(const Bytes &t, Bytes &out, uint64_t &last)
{
    size_t n = t.size();
    std::vector<uint32_t> sa = suffix_array(t);
    out.assign(n + 1, 0);
    last = 0;
    out[0] = t[n - 1];
    for (size_t i = 0; i < n; i++)
    {
        if (sa[i] == 0)
            last = i + 1;
        else
            out[i + 1] = t[sa[i] - 1];
    }
}

// Complete check of a claimed transform by inverting it: L is the BWT of t
// with end marker row `last` iff the standard permutation is one cycle that
// spells t.  Returns an empty string when it is.
// skip: L has only n entries, the row `last` is left out (file format).
inline std::string check_inverse(const uint8_t *t, size_t n, const uint8_t *L, uint64_t last, bool skip)
{
    char b[256];
    if (last > n)
    {
        snprintf(b, sizeof b, "rank %lu is larger than the length %zu", (unsigned long)last, n);
        return b;
    }
    if (last == 0)
    {
        // row 0 is the end marker alone; its predecessor is the last character
        return "rank 0 claims that the whole text is the end marker";
    }
    uint64_t cnt[257];
    memset(cnt, 0, sizeof cnt);
    auto at = [&](uint64_t i) -> uint8_t { return skip ? (i < last ? L[i] : L[i - 1]) : L[i]; };
    for (uint64_t i = 0; i <= n; i++)
        if (i != last)
            cnt[at(i) + 1]++;
    for (int i = 1; i <= 256; i++)
        cnt[i] += cnt[i - 1];
    std::vector<uint32_t> lf(n + 1);
    for (uint64_t i = 0; i <= n; i++)
        if (i == last)
            lf[i] = 0;
        else
            lf[i] = 1 + cnt[at(i)]++;
    uint64_t row = 0;
    for (size_t k = n; k-- > 0;)
    {
        if (row == last)
        {
            snprintf(b, sizeof b, "inverse transform ends after %zu of %zu bytes", n - 1 - k, n);
            return b;
        }
        uint8_t c = at(row);
        if (c != t[k])
        {
            snprintf(b, sizeof b, "inverse transform gives byte 0x%02x at text position %zu, text has 0x%02x", c, k, t[k]);
            return b;
        }
        row = lf[row];
    }
    if (row != last)
    {
        snprintf(b, sizeof b, "the row of the whole text is %lu, rank says %lu", (unsigned long)row, (unsigned long)last);
        return b;
    }
    return "";
}

// ------------------------------------------------------------- LMS model
struct Lms
{
    std::vector<bool> is_s;      // type per position 0..n-1
    std::vector<size_t> pos;     // S* positions, increasing (without the end marker)
    size_t head_end;             // first S* position, n if there is none
    std::vector<Bytes> subs;     // substring T[p..q] per S* position, end marker shown as 0
};
inline Lms lms(const Bytes &t)
{
    Lms r;
    size_t n = t.size();
    r.is_s.assign(n, false);
    for (size_t i = n - 1; i-- > 0;)
        r.is_s[i] = t[i] < t[i + 1] || (t[i] == t[i + 1] && r.is_s[i + 1]);
    for (size_t i = 1; i < n; i++)
        if (r.is_s[i] && !r.is_s[i - 1])
            r.pos.push_back(i);
    r.head_end = r.pos.empty() ? n : r.pos[0];
    for (size_t j = 0; j < r.pos.size(); j++)
    {
        size_t p = r.pos[j], q = j + 1 < r.pos.size() ? r.pos[j + 1] : n;
        Bytes b(t.begin() + p, t.begin() + std::min(q + 1, n));
        if (q == n)
            b.push_back(0);
        r.subs.push_back(b);
    }
    return r;
}

// How many nested reductions does induced sorting of t's pieces need?
// 0: all names are different at once.
inline int depth(const Bytes &t0)
{
    std::vector<uint32_t> t(t0.begin(), t0.end());
    for (uint32_t &x : t)
        x++;
    t.push_back(0);
    for (int d = 0; d < 40; d++)
    {
        size_t n = t.size();
        std::vector<bool> S(n, false);
        S[n - 1] = true;
        std::vector<size_t> pos{n - 1};
        for (size_t i = n - 1; i-- > 0;)
        {
            S[i] = t[i] < t[i + 1] || (t[i] == t[i + 1] && S[i + 1]);
            if (!S[i] && S[i + 1] && i + 1 != n - 1)
                pos.push_back(i + 1);
        }
        std::reverse(pos.begin(), pos.end());
        std::vector<std::vector<uint32_t>> subs;
        for (size_t j = 0; j < pos.size(); j++)
            subs.emplace_back(t.begin() + pos[j], t.begin() + (j + 1 < pos.size() ? pos[j + 1] + 1 : n));
        std::vector<std::vector<uint32_t>> u = subs;
        std::sort(u.begin(), u.end());
        u.erase(std::unique(u.begin(), u.end()), u.end());
        if (u.size() == subs.size())
            return d;
        std::vector<uint32_t> v;
        for (auto &x : subs)
            v.push_back(std::lower_bound(u.begin(), u.end(), x) - u.begin());
        t.swap(v);
    }
    return 40;
}

// --------------------------------------------------- run-length oracle
struct Run
{
    uint8_t c;
    uint64_t n;
};
typedef std::vector<Run> Rle;
inline void push(Rle &r, uint8_t c, uint64_t n)
{
    if (!n)
        return;
    if (!r.empty() && r.back().c == c)
        r.back().n += n;
    else
        r.push_back({c, n});
}
// BWT of a run-length text in run-length form (row `last` left out).
inline void bwt_rle(const Rle &t, Rle &out, uint64_t &last)
{
    size_t m = t.size();
    // cmp of suffixes starting at runs a and b (whole runs)
    auto cmp = [&](size_t a, size_t b) -> int {
        if (a == b)
            return 0;
        while (a < m && b < m)
        {
            if (t[a].c != t[b].c)
                return t[a].c < t[b].c ? -1 : 1;
            if (t[a].n != t[b].n)
            {
                // the shorter run is followed by another character
                if (t[a].n < t[b].n)
                {
                    if (a + 1 == m)
                        return -1;
                    return t[a + 1].c < t[b].c ? -1 : 1;
                }
                if (b + 1 == m)
                    return 1;
                return t[b + 1].c < t[a].c ? 1 : -1;
            }
            a++;
            b++;
        }
        return a == m && b == m ? 0 : a == m ? -1 : 1;
    };
    std::vector<size_t> ord(m + 1);
    for (size_t i = 0; i <= m; i++)
        ord[i] = i;
    std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return cmp(a, b) < 0; });
    std::vector<size_t> rank(m + 1);
    for (size_t i = 0; i <= m; i++)
        rank[ord[i]] = i;
    out.clear();
    uint64_t row = 0;
    last = 0;
    auto emit_prev = [&](size_t r) { // predecessor of the suffix that starts run r
        if (r == 0)
            last = row;
        else
            push(out, t[r - 1].c, 1);
        row++;
    };
    if (m)
    {
        push(out, t[m - 1].c, 1);
        row++;
    }
    for (int c = 0; c < 256; c++)
        for (int ty = 0; ty < 2; ty++) // 0: L (next smaller), 1: S (next larger)
        {
            std::vector<size_t> g;
            for (size_t r = 0; r < m; r++)
                if (t[r].c == c && (r + 1 == m || t[r + 1].c < c) == (ty == 0))
                    g.push_back(r);
            if (g.empty())
                continue;
            std::sort(g.begin(), g.end(), [&](size_t a, size_t b) { return rank[a + 1] < rank[b + 1]; });
            std::vector<uint64_t> lens;
            for (size_t r : g)
                lens.push_back(t[r].n);
            std::sort(lens.begin(), lens.end());
            lens.erase(std::unique(lens.begin(), lens.end()), lens.end());
            auto block = [&](uint64_t lo, uint64_t hi) { // i in (lo,hi): nobody starts here
                uint64_t live = 0;
                for (size_t r : g)
                    live += t[r].n > lo ? 1 : 0;
                if (hi > lo + 1)
                {
                    push(out, c, live * (hi - lo - 1));
                    row += live * (hi - lo - 1);
                }
            };
            auto exact = [&](uint64_t i) {
                for (size_t r : g)
                {
                    if (t[r].n < i)
                        continue;
                    if (t[r].n == i)
                        emit_prev(r);
                    else
                    {
                        push(out, c, 1);
                        row++;
                    }
                }
            };
            if (ty == 0)
                for (size_t k = 0; k < lens.size(); k++)
                {
                    block(k ? lens[k - 1] : 0, lens[k]);
                    exact(lens[k]);
                }
            else
                for (size_t k = lens.size(); k-- > 0;)
                {
                    exact(lens[k]);
                    block(k ? lens[k - 1] : 0, lens[k]);
                }
        }
}

} // namespace ref

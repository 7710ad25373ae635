// Calling the library under test.
#pragma once
#include "vp.hpp"
#include "ref.hpp"
#include "gen.hpp"
#include <stdlib.h>
#include <string.h>
#include <memory>
#include "flbwt.hpp"

namespace sut
{
typedef std::vector<uint8_t> Bytes;

struct Result
{
    flbwt::BWT_result *r = nullptr;
    Result() {}
    explicit Result(flbwt::BWT_result *x) : r(x) {}
    Result(Result &&o) : r(o.r) { o.r = nullptr; }
    Result &operator=(Result &&o)
    {
        std::swap(r, o.r);
        return *this;
    }
    ~Result() { release(); }
    void release()
    {
        if (r)
        {
            delete[] r->BWT;
            free(r);
        }
        r = nullptr;
    }
};

// text as callers provide it: n bytes and a terminating zero
inline uint8_t *dup(const Bytes &t)
{
    uint8_t *p = (uint8_t *)malloc(t.size() + 1);
    if (!t.empty())
        memcpy(p, t.data(), t.size());
    p[t.size()] = 0;
    return p;
}

inline Result call(const Bytes &t, bool free_t = true)
{
    uint8_t *p = dup(t);
    if (free_t)
        return Result(flbwt::bwt_string(p, t.size(), true));
    std::unique_ptr<uint8_t, void (*)(void *)> own(p, free);
    Result r(flbwt::bwt_string(p, t.size(), false));
    VP_REQUIRE(memcmp(p, t.data(), t.size()) == 0 && p[t.size()] == 0, "the caller's text was modified");
    return r;
}

inline void check(const Bytes &t, const Result &r, bool naive)
{
    VP_REQUIRE(r.r != nullptr, "no result");
    VP_REQUIRE(r.r->BWT != nullptr, "result without rows");
    VP_REQUIRE(r.r->last <= t.size(), "rank %lu is larger than the length %zu", (unsigned long)r.r->last, t.size());
    if (naive)
    {
        Bytes e;
        uint64_t last;
        ref::bwt(t, e, last);
        VP_REQUIRE(last == r.r->last, "rank is %lu, expected %lu", (unsigned long)r.r->last, (unsigned long)last);
        for (size_t i = 0; i <= t.size(); i++)
            VP_REQUIRE(i == last || e[i] == r.r->BWT[i], "row %zu is 0x%02x, expected 0x%02x", i, r.r->BWT[i], e[i]);
    }
    std::string m = ref::check_inverse(t.data(), t.size(), r.r->BWT, r.r->last, false);
    VP_REQUIRE(m.empty(), "%s", m.c_str());
}

// a string of the enumeration of all strings over growing alphabets, number i
// of the list: every string over k symbols up to length maxlen(k)
inline Bytes enumerated(uint64_t i, uint64_t total, const std::vector<std::pair<int, int>> &plan, int *symbols = nullptr)
{
    (void)total;
    for (auto &pl : plan)
    {
        uint64_t k = pl.first;
        uint64_t cnt = k;
        for (int len = 1; len <= pl.second; len++)
        {
            if (i < cnt)
            {
                Bytes b(len);
                for (int j = len; j-- > 0;)
                {
                    b[j] = i % k;
                    i /= k;
                }
                if (symbols)
                    *symbols = k;
                return b;
            }
            i -= cnt;
            cnt *= k;
        }
    }
    if (symbols)
        *symbols = 1;
    return Bytes(1, 0);
}
inline uint64_t enum_count(const std::vector<std::pair<int, int>> &plan)
{
    uint64_t tot = 0;
    for (auto &pl : plan)
    {
        uint64_t c = pl.first;
        for (int l = 1; l <= pl.second; l++)
        {
            tot += c;
            c *= pl.first;
        }
    }
    return tot;
}
// increasing maps from symbols to bytes, number v
inline void remap(Bytes &b, int k, unsigned v)
{
    for (uint8_t &x : b)
        switch (v % 4)
        {
        case 0: break;                                  // 0,1,2..
        case 1: x = 'a' + x; break;                     // a,b,c..
        case 2: x = 256 - k + x; break;                 // ..254,255
        default: x = x + 1 == k ? 255 : x;              // 0,1,..,255
        }
}
} // namespace sut

// C16: packed arrays against vectors.
#include "vp.hpp"
#include "inter.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <string.h>
#include "packed_array.hpp"
using namespace vp;

static uint64_t value(Src &s, int d)
{
    uint64_t top = d == 64 ? UINT64_MAX : (1ull << d) - 1;
    switch (s.weighted({4, 2, 2, 1, 1}))
    {
    case 1: return top;
    case 2: return 0;
    case 3: return 1ull << s.range(0, d - 1);
    case 4: return top ^ (1ull << s.range(0, d - 1));
    default: return s.range(0, top);
    }
}
static void c16_small(Src &s, Ctx &c)
{
    int d = 1 + s.range(0, 63);
    uint64_t len = s.chance(1, 2) ? 1 + s.range(0, 12) : 1 + s.range(0, 700);
    flbwt::PackedArray a(len, d);
    VP_REQUIRE(a.get_length() == len, "length is %lu, expected %lu", (unsigned long)a.get_length(), (unsigned long)len);
    VP_REQUIRE(a.get_integer_bits() == d, "width is %d, expected %d", a.get_integer_bits(), d);
    std::vector<uint64_t> m(len);
    std::vector<bool> set(len);
    size_t ops = 1 + s.range(0, 120);
    c.note("length %lu width %d, %zu writes", (unsigned long)len, d, ops);
    c.key(len * 64 + d);
    c.label(64 % d == 0 ? "width divides 64" : d < 32 ? "width <32" : "width >=32");
    if (s.chance(1, 2))
        for (uint64_t i = 0; i < len; i++)
        {
            m[i] = (d == 64 ? UINT64_MAX : (1ull << d) - 1) & mix64(i + len);
            set[i] = true;
            a.set_value(i, m[i]);
        }
    uint64_t cur = s.range(0, len - 1);
    for (size_t k = 0; k < ops; k++)
    {
        uint64_t i;
        switch (s.weighted({3, 3, 1, 1}))
        {
        case 0: i = s.range(0, len - 1); break;
        case 1: i = (cur + 1) % len; break;
        case 2: i = len - 1 - s.range(0, std::min<uint64_t>(len - 1, 2)); break;
        default: i = cur ? cur - 1 : 0;
        }
        cur = i;
        uint64_t v = value(s, d);
        c.key(i * 31 + v);
        a.set_value(i, v);
        m[i] = v;
        set[i] = true;
        for (uint64_t j = i > 70 ? i - 70 : 0; j < len && j <= i + 70; j++)
            if (set[j])
            {
                uint64_t g = a.get_value(j);
                VP_REQUIRE(g == m[j], "width %d: element %lu is 0x%lx, last written was 0x%lx (after a write to element %lu)", d, (unsigned long)j, (unsigned long)g, (unsigned long)m[j], (unsigned long)i);
            }
    }
    for (uint64_t j = 0; j < len; j++)
        if (set[j])
            VP_REQUIRE(a.get_value(j) == m[j], "width %d: element %lu is 0x%lx, last written was 0x%lx (at the end)", d, (unsigned long)j, (unsigned long)a.get_value(j), (unsigned long)m[j]);
    c.nontrivial(len >= 2 && ops >= 2);
}
VP_PART(c16_small, c16_small, 250000, 5000000, 120, 0, 4096, "write histories on arrays of 1..700 elements of 1..64 bits; non-trivial: at least two elements and two writes");

static void c16_fill(Src &s, Ctx &c)
{ // whole arrays, written in any order, then read
    int d = 1 + s.range(0, 63);
    uint64_t len = 1 + s.range(0, 200000);
    uint64_t step = 1 + 2 * s.range(0, 50000);
    while (std::__gcd(step, len) != 1)
        step++;
    flbwt::PackedArray a(len, d);
    uint64_t seed = s.u64(), top = d == 64 ? UINT64_MAX : (1ull << d) - 1;
    c.key(len * 64 + d);
    c.key(seed);
    c.nontrivial(len > 1);
    for (int round = 0; round < 2; round++)
        for (uint64_t i = 0, j = 0; i < len; i++, j = (j + step) % len)
            if (round == 0 || mix64(seed - j) % 3 == 0)
                a.set_value(j, mix64(seed + j + 7 * round) & top);
    for (uint64_t j = 0; j < len; j++)
    {
        uint64_t e = mix64(seed + j + (mix64(seed - j) % 3 == 0 ? 7 : 0)) & top;
        VP_REQUIRE(a.get_value(j) == e, "length %lu width %d: element %lu is 0x%lx, last written was 0x%lx", (unsigned long)len, d, (unsigned long)j, (unsigned long)a.get_value(j), (unsigned long)e);
    }
}
VP_PART(c16_fill, c16_fill, 1500, 30000, 120, 0, 4096, "arrays up to 200000 elements written in strided order, rewritten in part, read; non-trivial: more than one element");

static void c16_huge(Src &s, Ctx &c)
{ // sparse arrays of up to 2^45 bits; few pages are touched
    int d = 1 + s.range(0, 63);
    int lb = 33 + s.range(0, 11); // bits of the bit count
    uint64_t len = ((1ull << lb) + s.range(0, 1ull << lb)) / d;
    inter::sparse_malloc = true;
    struct Off
    {
        ~Off() { inter::sparse_malloc = false; }
    } off;
    // an array that clears its memory cannot be made this large
    static int touches = -1;
    if (touches < 0)
    {
        uint64_t r0 = inter::resident();
        flbwt::PackedArray probe(1ull << 31, 1);
        touches = inter::resident() > r0 + (64 << 20);
    }
    if (touches)
    {
        c.label("the memory is cleared");
        return;
    }
    std::unique_ptr<flbwt::PackedArray> pa;
    try
    {
        pa.reset(new flbwt::PackedArray(len, d));
    }
    catch (std::bad_alloc &)
    {
    }
    if (!pa || !pa->get_raw_arr_pointer())
    {
        c.label("no address space");
        return;
    }
    flbwt::PackedArray &a = *pa;
    VP_REQUIRE(a.get_length() == len, "length is %lu, expected %lu", (unsigned long)a.get_length(), (unsigned long)len);
    std::map<uint64_t, uint64_t> m;
    c.note("length %lu width %d", (unsigned long)len, d);
    c.key(len * 64 + d);
    c.nontrivial(true);
    c.label("2^" + std::to_string(lb) + " bits");
    for (int k = 0; k < 24; k++)
    {
        uint64_t i;
        switch (s.range(0, 4))
        {
        case 0: i = s.range(0, len - 1); break;
        case 1: i = len - 1 - s.range(0, 3); break;
        case 2: i = s.range(0, 3); break;
        case 3:
        { // around a power of two of the bit position
            uint64_t b = 1ull << (31 + s.range(0, lb - 31));
            i = std::min<uint64_t>(len - 1, b / d + s.range(0, 2));
            break;
        }
        default: // an index that differs from a used one by a power of two
            i = m.empty() ? 0 : (m.begin()->first ^ (1ull << (24 + s.range(0, 18)))) % len;
        }
        uint64_t v = value(s, d);
        a.set_value(i, v);
        m[i] = v;
    }
    for (auto &x : m)
        VP_REQUIRE(a.get_value(x.first) == x.second, "length %lu width %d: element %lu is 0x%lx, last written was 0x%lx", (unsigned long)len, d, (unsigned long)x.first, (unsigned long)a.get_value(x.first), (unsigned long)x.second);
}
VP_PART(c16_huge, c16_huge, 4000, 60000, 120, 0, 0, "sparse arrays of 2^33..2^45 bits, writes at boundaries; every case is non-trivial");

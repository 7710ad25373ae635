// C18: numbers in compact encodings.
#include "vp.hpp"
#include "inter.hpp"
#include <map>
#include <memory>
#include <sys/mman.h>
#include <string.h>
#include "hashtable.hpp"
#include "utility.hpp"
#include "sais40bit.hpp"
#include "sais48bit.hpp"
#include "sais56bit.hpp"
using namespace vp;
typedef std::vector<uint8_t> Bytes;

// values around every boundary
static uint64_t number(Src &s, int bits)
{
    uint64_t top = bits == 64 ? UINT64_MAX : (1ull << bits) - 1, v;
    switch (s.weighted({3, 3, 2, 2, 1}))
    {
    case 0: v = (1ull << s.range(0, bits - 1)) + s.range(0, 4) - 2; break;
    case 1: v = s.u64() >> s.range(64 - bits, 63); break;
    case 2: // bytes that are zero or 255
    {
        v = 0;
        for (int i = 0; i < 8; i++)
            v = v << 8 | s.pick<uint8_t>({0, 255, 1, 128, 0, 127});
        v >>= s.range(0, 7) * 8;
        break;
    }
    case 3: v = s.range(1, 70000); break;
    default: v = s.u64();
    }
    return v & top;
}
static int bytes_of(uint64_t v)
{
    int b = 1;
    while (v >>= 8)
        b++;
    return b;
}
static uint64_t table_n(Src &s)
{
    int nb = 1 + s.range(0, 7);
    uint64_t hi = nb == 8 ? UINT64_MAX : 2 * ((1ull << (8 * nb)) - 1) - 1;
    return s.chance(1, 2) ? hi - s.range(0, 3) : nb == 1 ? s.range(1, 3) : 2 * ((1ull << (8 * nb - 8)) - 1) + s.range(0, 5);
}
static void c18_record(Src &s, Ctx &c)
{
    inter::lib_reset();
    uint64_t n = table_n(s);
    flbwt::HashTable h(1 + s.range(0, 3), n);
    int nb = h.NAME_BYTES;
    uint64_t maxname = n / 2 + 1;
    VP_REQUIRE(nb >= bytes_of(maxname), "%d bytes for a name up to %lu", nb, (unsigned long)maxname);
    uint8_t bg = s.byte();
    Bytes b(64, bg);
    uint8_t *p = b.data() + 16;
    // a length
    uint64_t L = number(s, 64);
    if (L == 0)
        L = 1;
    c.note("length %lu, background 0x%02x, names of %d bytes", (unsigned long)L, bg, nb);
    c.key(L);
    c.nontrivial(true);
    c.label("length of " + std::to_string(bytes_of(L)) + " bytes");
    VP_REQUIRE(h.calculate_lenlen(L) == bytes_of(L), "%d bytes announced for length %lu, the least is %d", h.calculate_lenlen(L), (unsigned long)L, bytes_of(L));
    h.set_length(p, L);
    VP_REQUIRE(h.get_length(p) == L, "length 0x%lx is read back as 0x%lx", (unsigned long)L, (unsigned long)h.get_length(p));
    VP_REQUIRE(h.get_lenlen(p) == bytes_of(L), "%d bytes used for length 0x%lx, the least is %d", h.get_lenlen(p), (unsigned long)L, bytes_of(L));
    for (size_t i = 0; i < b.size(); i++)
        VP_REQUIRE((i >= 16 && i <= 16 + (size_t)bytes_of(L)) || b[i] == bg, "storing length 0x%lx changed byte %ld of the record", (unsigned long)L, (long)i - 16);
    VP_REQUIRE(h.get_first_character_pointer(p) == p + 2 + bytes_of(L), "the first character of a substring of length 0x%lx is at offset %ld, expected %d", (unsigned long)L, (long)(h.get_first_character_pointer(p) - p), 2 + bytes_of(L));
    if (L < (1ull << 60))
        VP_REQUIRE(h.string_info_length(p, L) == 2 + bytes_of(L) + L + nb, "a record of length %lu takes %lu bytes, expected %lu", (unsigned long)L, (unsigned long)h.string_info_length(p, L), (unsigned long)(2 + bytes_of(L) + L + nb));
    // a position
    std::fill(b.begin(), b.end(), bg);
    uint64_t P = number(s, 64);
    h.set_pointer(p, P);
    VP_REQUIRE(h.get_pointer(p) == P, "position 0x%lx is read back as 0x%lx", (unsigned long)P, (unsigned long)h.get_pointer(p));
    VP_REQUIRE(h.get_length(p) == 2, "a position record has length %lu, expected 2", (unsigned long)h.get_length(p));
    for (size_t i = 0; i < b.size(); i++)
        VP_REQUIRE((i >= 16 && i < 26) || b[i] == bg, "storing a position changed byte %ld of the record", (long)i - 16);
    // a name behind a substring
    uint64_t l = s.chance(1, 2) ? 3 + s.range(0, 20) : s.pick<uint64_t>({255, 256, 257, 511, 512, 65535, 65536, 65537});
    uint64_t name = s.chance(1, 3) ? maxname - s.range(0, std::min<uint64_t>(2, maxname - 1)) : number(s, 64) % maxname + 1;
    size_t total = 2 + bytes_of(l) + l + nb;
    Bytes r(total + 32, bg);
    uint8_t *q = r.data() + 16;
    h.set_length(q, l);
    Bytes before = r;
    h.set_name(q, name);
    VP_REQUIRE(h.get_name(q) == name, "name 0x%lx is read back as 0x%lx (%d bytes)", (unsigned long)name, (unsigned long)h.get_name(q), nb);
    VP_REQUIRE(h.get_length(q) == l, "storing a name changed the length");
    for (size_t i = 0; i < r.size(); i++)
        VP_REQUIRE((i >= 16 + total - nb && i < 16 + total) || r[i] == before[i], "storing a name changed byte %ld of a record of %zu", (long)i - 16, total);
    c.label("names of " + std::to_string(nb) + " bytes");
}
VP_PART(c18_record, c18_record, 400000, 8000000, 120, 0, 4096, "lengths, positions and names around every byte boundary on random background; every case is non-trivial");

// a whole table entry with a long piece and the largest name
static void c18_entry(Src &s, Ctx &c)
{
    inter::lib_reset();
    uint64_t n = std::max<uint64_t>(table_n(s), 40);
    flbwt::HashTable h(1 + s.range(0, 5), n);
    size_t cnt = 1 + s.range(0, 5);
    std::vector<Bytes> in;
    for (size_t i = 0; i < cnt; i++)
    {
        uint64_t l = s.chance(1, 2) ? s.pick<uint64_t>({3, 255, 256, 257, 512, 767, 768, 1024, 4096, 65279, 65280, 65535, 65536, 65537, 131072}) : 3 + s.range(0, 3000);
        Bytes b(l, s.byte());
        b[l - 1 - i % l] ^= 0x55;
        if (h.insert_string(l, b.data()))
            in.push_back(b);
    }
    c.key(n);
    for (auto &b : in)
    {
        c.key(b.data(), b.size());
        uint8_t copy = h.insert_string(b.size(), b.data());
        VP_REQUIRE(copy == 0, "a stored substring of length %zu is not found", b.size());
    }
    c.nontrivial(in.size() >= 1);
    c.note("%zu entries, n %lu", in.size(), (unsigned long)n);
}
VP_PART(c18_entry, c18_entry, 60000, 1000000, 120, 0, 4096, "table entries whose length lies on a representation boundary; every case is non-trivial");

template <int W> struct Split;
template <> struct Split<40>
{
    std::vector<uint32_t> L;
    std::vector<int8_t> U;
    Split(size_t n) : L(n), U(n) {}
    void set(size_t i, int64_t v) { flbwt::set_40bit_value(L.data(), U.data(), i, v); }
    int64_t get(size_t i) { return flbwt::get_40bit_value(L.data(), U.data(), i); }
};
template <> struct Split<48>
{
    std::vector<uint32_t> L;
    std::vector<int16_t> U;
    Split(size_t n) : L(n), U(n) {}
    void set(size_t i, int64_t v) { flbwt::set_48bit_value(L.data(), U.data(), i, v); }
    int64_t get(size_t i) { return flbwt::get_48bit_value(L.data(), U.data(), i); }
};
template <> struct Split<56>
{
    std::vector<uint32_t> L;
    std::vector<uint16_t> M;
    std::vector<int8_t> U;
    Split(size_t n) : L(n), M(n), U(n) {}
    void set(size_t i, int64_t v) { flbwt::set_56bit_value(L.data(), M.data(), U.data(), i, v); }
    int64_t get(size_t i) { return flbwt::get_56bit_value(L.data(), M.data(), U.data(), i); }
};
template <int W> static void split(Src &s, Ctx &c)
{
    size_t n = 1 + s.range(0, 9);
    Split<W> a(n);
    std::vector<int64_t> m(n);
    for (size_t i = 0; i < n; i++)
        a.set(i, 0);
    size_t ops = 1 + s.range(0, 20);
    for (size_t k = 0; k < ops; k++)
    {
        size_t i = s.range(0, n - 1);
        uint64_t u = number(s, W - 1);
        int64_t v = s.chance(1, 2) ? (int64_t)u : ~(int64_t)u;
        a.set(i, v);
        m[i] = v;
        c.key(v);
        for (size_t j = 0; j < n; j++)
            VP_REQUIRE(a.get(j) == m[j], "%d bit array: element %zu is %ld, last written was %ld", W, j, (long)a.get(j), (long)m[j]);
    }
    c.note("%d bit, %zu elements, %zu writes", W, n, ops);
    c.label(std::to_string(W) + " bit");
    c.nontrivial(n >= 2);
}
static void c18_split(Src &s, Ctx &c)
{
    switch (s.range(0, 2))
    {
    case 0: split<40>(s, c); break;
    case 1: split<48>(s, c); break;
    default: split<56>(s, c);
    }
}
VP_PART(c18_split, c18_split, 300000, 6000000, 120, 0, 4096, "writes of boundary values, positive and complemented, to split arrays; non-trivial: at least two elements");

// the same encodings far from the beginning: elements beyond 2^31 and 2^32,
// names behind pieces of gigabytes (address space only)
struct Area
{
    uint8_t *p;
    static const uint64_t SIZE = 1ull << 44;
    Area()
    {
        p = (uint8_t *)mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    ~Area()
    {
        if (p != MAP_FAILED)
            munmap(p, SIZE);
    }
};
template <class S, class G> static void far(Src &s, Ctx &c, int W, S set, G get)
{
    size_t n = 2 + s.range(0, 6);
    std::map<int64_t, int64_t> m;
    std::vector<int64_t> at;
    for (size_t i = 0; i < n; i++)
    {
        int64_t x = s.chance(1, 3) && i ? at[s.range(0, i - 1)] & 0xffffffff : s.chance(1, 3) && i ? at[s.range(0, i - 1)] & 0x7fffffff : (int64_t)(number(s, 40) & ((1ull << 40) - 1));
        at.push_back(x);
        c.nontrivial(x >= 1ll << 31);
        c.key(x);
        set(x, 0);
        m[x] = 0;
    }
    for (size_t k = 0; k < 2 * n; k++)
    {
        int64_t x = at[s.range(0, n - 1)];
        int64_t v = (int64_t)number(s, W - 1);
        if (s.chance(1, 2))
            v = ~v;
        set(x, v);
        m[x] = v;
        for (auto &e : m)
            VP_REQUIRE(get(e.first) == e.second, "%d bit array: element %ld is %ld, last written was %ld", W, (long)e.first, (long)get(e.first), (long)e.second);
    }
    c.note("%d bit, elements up to %ld", W, (long)m.rbegin()->first);
    c.label(std::to_string(W) + " bit");
}
static void c18_far(Src &s, Ctx &c)
{
    inter::lib_reset();
    Area a;
    VP_REQUIRE(a.p != MAP_FAILED, "harness: mmap");
    uint32_t *L = (uint32_t *)a.p;
    uint8_t *U = a.p + (1ull << 42), *M = a.p + (1ull << 43);
    switch (s.range(0, 3))
    {
    case 0: far(s, c, 40, [&](int64_t i, int64_t v) { flbwt::set_40bit_value(L, (int8_t *)U, i, v); }, [&](int64_t i) { return (int64_t)flbwt::get_40bit_value(L, (int8_t *)U, i); }); return;
    case 1: far(s, c, 48, [&](int64_t i, int64_t v) { flbwt::set_48bit_value(L, (int16_t *)U, i, v); }, [&](int64_t i) { return (int64_t)flbwt::get_48bit_value(L, (int16_t *)U, i); }); return;
    case 2: far(s, c, 56, [&](int64_t i, int64_t v) { flbwt::set_56bit_value(L, (uint16_t *)U, (int8_t *)M, i, v); }, [&](int64_t i) { return (int64_t)flbwt::get_56bit_value(L, (uint16_t *)U, (int8_t *)M, i); }); return;
    default: break;
    }
    uint64_t n = table_n(s);
    flbwt::HashTable h(1, n);
    int nb = h.NAME_BYTES;
    uint64_t l = number(s, 43) | 4, name = number(s, 64) % (n / 2 + 1) + 1, other = number(s, 64) % (n / 2 + 1) + 1;
    uint64_t start = s.range(0, 5000);
    uint8_t *p = a.p + start, *e = p + 2 + bytes_of(l) + l;
    h.set_length(p, l);
    h.set_name(p, name);
    VP_REQUIRE(h.get_length(p) == l, "storing a name changed the length %lu to %lu", (unsigned long)l, (unsigned long)h.get_length(p));
    VP_REQUIRE(h.get_name(p) == name, "name 0x%lx behind a piece of %lu bytes is read back as 0x%lx", (unsigned long)name, (unsigned long)l, (unsigned long)h.get_name(p));
    for (uint64_t o : {uint64_t(0), l / 2, l - 1, l & 0xffffffff, l & 0x7fffffff})
        VP_REQUIRE(o >= l || p[2 + bytes_of(l) + o] == 0, "storing a name changed byte %lu of a piece of %lu bytes", (unsigned long)o, (unsigned long)l);
    VP_REQUIRE(e[nb] == 0, "storing a name of a piece of %lu bytes changed what follows it", (unsigned long)l);
    h.set_name(p, other);
    VP_REQUIRE(h.get_name(p) == other, "name 0x%lx behind a piece of %lu bytes is read back as 0x%lx", (unsigned long)other, (unsigned long)l, (unsigned long)h.get_name(p));
    c.key(l);
    c.key(name);
    c.note("piece of %lu bytes, name 0x%lx", (unsigned long)l, (unsigned long)name);
    c.label("piece of " + std::to_string(bytes_of(l)) + " byte length");
    c.nontrivial(l >= 1ull << 31);
}
VP_PART(c18_far, c18_far, 40000, 800000, 120, 0, 0, "elements of split arrays and names of pieces up to 2^43 bytes away; non-trivial: beyond 2^31");
static void c18_msb(Src &s, Ctx &c)
{
    uint64_t v = number(s, 64);
    if (!v)
        v = 1;
    int e = 0;
    for (uint64_t x = v; x; x >>= 1)
        e++;
    c.key(v);
    c.note("0x%lx", (unsigned long)v);
    c.nontrivial(v > 1);
    VP_REQUIRE(flbwt::position_of_msb(v) == e, "width of 0x%lx is reported as %d, expected %d", (unsigned long)v, flbwt::position_of_msb(v), e);
    // the width of a power of two and its predecessor, every one of them
    int b = 1 + s.index(63);
    VP_REQUIRE(flbwt::position_of_msb(1ull << b) == b + 1 && flbwt::position_of_msb((1ull << b) - 1) == b, "widths around 2^%d are reported as %d and %d", b, flbwt::position_of_msb((1ull << b) - 1), flbwt::position_of_msb(1ull << b));
}
VP_PART(c18_msb, c18_msb, 200000, 4000000, 120, 0, 4096, "64 bit numbers around every power of two; non-trivial: above 1");

// C15: the substring table against a map.
#include "vp.hpp"
#include "ref.hpp"
#include "gen.hpp"
#include "inter.hpp"
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include "hashtable.hpp"
#include "container.hpp"
#include "flbwt.hpp"
using namespace vp;
typedef std::vector<uint8_t> Bytes;

struct Model
{
    std::map<Bytes, uint64_t> name; // 0: no name given yet
    std::vector<Bytes> order;
};

static Bytes piece(Src &s, const Model &m)
{
    Bytes b;
    switch (s.weighted({5, 4, 4, 3, 2, 2}))
    {
    case 0:
    { // short, few symbols: collisions and duplicates
        size_t l = 3 + s.range(0, 4);
        for (size_t i = 0; i < l; i++)
            b.push_back('a' + s.range(0, 2));
        break;
    }
    case 1: // stored already, perhaps changed a little
        if (!m.order.empty())
        {
            b = m.order[s.range(0, m.order.size() - 1)];
            switch (s.range(0, 5))
            {
            case 0: b[s.range(0, b.size() - 1)] ^= 1 << s.range(0, 7); break;
            case 1: b.push_back(s.byte()); break;
            case 2:
                if (b.size() > 3)
                    b.pop_back();
                break;
            case 3: b.back()++; break;
            default: break;
            }
            break;
        }
        [[fallthrough]];
    case 2:
    { // any bytes
        size_t l = 3 + s.range(0, 30);
        for (size_t i = 0; i < l; i++)
            b.push_back(s.byte());
        break;
    }
    case 3:
    { // runs at representation boundaries
        b.assign(std::max<uint64_t>(3, gen::special_len(s, 70000)), s.byte());
        if (s.chance(1, 2))
            b[s.range(0, b.size() - 1)] = s.byte();
        break;
    }
    case 4:
    { // zero and 255
        size_t l = 3 + s.range(0, 20);
        for (size_t i = 0; i < l; i++)
            b.push_back(s.chance(1, 2) ? 0 : 255);
        break;
    }
    default:
    {
        size_t l = 3 + s.range(0, 1200);
        Prng r(s.u64());
        uint64_t k = 1 + s.range(0, 255);
        for (size_t i = 0; i < l; i++)
            b.push_back(r.below(k));
    }
    }
    while (b.size() < 3)
        b.push_back(0);
    return b;
}
static void expect_missing(flbwt::HashTable &h, Bytes b)
{
    bool threw = false;
    uint64_t v = 0;
    try
    {
        v = h.find_name(b.size(), b.data());
    }
    catch (std::exception &)
    {
        threw = true;
    }
    VP_REQUIRE(threw, "a substring that was never inserted has the name %lu: %s", (unsigned long)v, ref::show(b, 80).c_str());
}
static void expect_named(flbwt::HashTable &h, Bytes b, uint64_t e)
{
    try
    {
        uint64_t v = h.find_name(b.size(), b.data());
        VP_REQUIRE(v == e, "substring %s has the name %lu, last given was %lu", ref::show(b, 80).c_str(), (unsigned long)v, (unsigned long)e);
    }
    catch (std::exception &x)
    {
        fail("stored substring %s is reported missing (%s)", ref::show(b, 80).c_str(), x.what());
    }
}
static void insert(flbwt::HashTable &h, Model &m, Bytes b, Ctx &c)
{
    bool isnew = !m.name.count(b);
    uint8_t r = h.insert_string(b.size(), b.data());
    VP_REQUIRE((r != 0) == isnew, "insertion of %s substring %s returned %d", isnew ? "the new" : "the stored", ref::show(b, 80).c_str(), r);
    c.label(isnew ? "insert new" : "insert duplicate");
    if (isnew)
    {
        m.name[b] = 0;
        m.order.push_back(b);
    }
}
static bool piece_less(const Bytes &a, const Bytes &b)
{
    size_t k = std::min(a.size(), b.size());
    int x = memcmp(a.data(), b.data(), k);
    return x ? x < 0 : a.size() > b.size();
}
// n and bucket sizes
static flbwt::HashTable *table(Src &s, Ctx &c, uint64_t maxrec, uint64_t *n)
{
    uint64_t size = s.chance(1, 2) ? 1 + s.range(0, 3) : 1 + s.range(0, 500);
    int nb = 1 + s.range(0, 7); // bytes of a name
    uint64_t hi = nb == 8 ? UINT64_MAX : 2 * ((1ull << (8 * nb)) - 1) - 1;
    switch (s.range(0, 2))
    {
    case 0: *n = hi - s.range(0, 3); break;
    case 1: *n = hi - s.range(0, hi / 2); break;
    default: *n = (nb == 1 ? 0 : 2 * ((1ull << (8 * nb - 8)) - 1)) + s.range(0, 5);
    }
    *n = std::max<uint64_t>(*n, 2 * maxrec + 8);
    flbwt::HashTable *h = new flbwt::HashTable(size, *n);
    if (s.chance(2, 3))
        h->HBSIZE = 32 + s.range(0, s.chance(1, 2) ? 64 : 2000);
    c.note("%lu buckets, growth %lu, n %lu", (unsigned long)size, (unsigned long)h->HBSIZE, (unsigned long)*n);
    c.label("name bytes " + std::to_string(h->NAME_BYTES));
    return h;
}
static void history(Src &s, Ctx &c, size_t maxops)
{
    inter::lib_reset();
    uint64_t n;
    size_t ops = 1 + s.range(0, maxops - 1);
    flbwt::HashTable *h = table(s, c, 2 * maxops + 50, &n);
    flbwt::Container k(n);
    k.hashtable = h; // releases it
    uint64_t maxname = n / 2 + 1;
    Model m;
    for (size_t i = 0; i < ops; i++)
    {
        Bytes b = piece(s, m);
        c.key(b.data(), b.size());
        if (s.chance(1, 6))
        {
            if (!m.name.count(b))
            {
                expect_missing(*h, b);
                c.label("lookup of a missing substring");
            }
        }
        else
            insert(*h, m, b, c);
    }
    if (m.order.empty())
        insert(*h, m, {1, 2, 3}, c);
    c.note("%zu distinct substrings of %zu operations", m.order.size(), ops);
    c.label(m.order.size() < 10 ? "stored <10" : m.order.size() < 100 ? "stored <100" : "stored >=100");
    c.nontrivial(m.order.size() >= 5);
    // enumeration: every stored substring once, and names in order
    uint8_t T[4] = {'b', 'a', 'c', 0};
    k.head_string_end = 1;
    k.num_of_substrings = m.order.size();
    k.num_of_unique_substrings = m.order.size();
    std::unique_ptr<uint8_t *, void (*)(void *)> S(flbwt::sort_LMS_strings(T, &k), free);
    std::vector<Bytes> sorted = m.order;
    std::sort(sorted.begin(), sorted.end(), piece_less);
    for (size_t i = 0; i < sorted.size(); i++)
    {
        uint8_t *r = S.get()[i + 1];
        const Bytes &b = sorted[i];
        VP_REQUIRE(h->get_length(r) == b.size(), "enumeration: entry %zu has length %lu, expected %s", i, (unsigned long)h->get_length(r), ref::show(b, 80).c_str());
        uint8_t *f = h->get_first_character_pointer(r);
        VP_REQUIRE(memcmp(f, b.data(), b.size()) == 0, "enumeration: entry %zu differs from %s", i, ref::show(b, 80).c_str());
        VP_REQUIRE(f[-1] == (uint8_t)(b[0] + 1), "entry %zu: sentinel is 0x%02x, expected 0x%02x", i, f[-1], (uint8_t)(b[0] + 1));
        m.name[b] = i + 1;
    }
    // naming, lookup and growth after naming
    size_t more = s.range(0, maxops);
    bool grown = false;
    for (size_t i = 0; i < more; i++)
    {
        switch (s.weighted({3, 3, 1, 2}))
        {
        case 0:
        {
            if (grown)
                break; // positions are not valid any more
            size_t j = s.range(0, sorted.size() - 1);
            uint64_t v = s.chance(1, 4) ? maxname - s.range(0, 2) : s.chance(1, 2) ? s.range(1, maxname) : s.range(1, std::min<uint64_t>(maxname, 70000));
            h->set_name(S.get()[j + 1], v);
            m.name[sorted[j]] = v;
            VP_REQUIRE(h->get_name(S.get()[j + 1]) == v, "the name %lu is read back as %lu", (unsigned long)v, (unsigned long)h->get_name(S.get()[j + 1]));
            c.label("set name");
            break;
        }
        case 1:
        {
            const Bytes &b = m.order[s.range(0, m.order.size() - 1)];
            if (m.name[b])
                expect_named(*h, b, m.name[b]);
            c.label("find name");
            break;
        }
        case 2:
        {
            Bytes b = piece(s, m);
            if (!m.name.count(b))
                expect_missing(*h, b);
            break;
        }
        default:
            if (s.chance(1, 2) || grown)
            {
                insert(*h, m, piece(s, m), c);
                grown = true;
                c.label("insert after naming");
            }
        }
    }
    for (auto &x : m.name)
        if (x.second)
            expect_named(*h, x.first, x.second);
    for (auto &b : m.order)
    {
        Bytes d = b;
        VP_REQUIRE(h->insert_string(d.size(), d.data()) == 0, "stored substring %s is inserted again as new", ref::show(b, 80).c_str());
    }
}
static void c15_hist(Src &s, Ctx &c) { history(s, c, 60); }
VP_PART(c15_hist, c15_hist, 150000, 3000000, 120, 0, 4096, "histories of up to 60 insertions and 60 namings, lookups and insertions; non-trivial: at least five distinct substrings stored");
static void c15_long(Src &s, Ctx &c) { history(s, c, 2500); }
VP_PART(c15_long, c15_long, 3000, 50000, 300, 0, 4096, "histories of up to 2500 insertions and as many namings and lookups; non-trivial: at least five distinct substrings stored");

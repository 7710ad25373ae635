// C13 (names and the shortened string) and C14 (decomposition statistics).
#include "sut.hpp"
#include "inter.hpp"
#include <map>
#include <memory>
using namespace vp;
using sut::Bytes;

static bool piece_less(const Bytes &a, const Bytes &b)
{
    size_t k = std::min(a.size(), b.size());
    int x = memcmp(a.data(), b.data(), k);
    if (x)
        return x < 0;
    return a.size() > b.size(); // a piece that extends another one comes first
}

struct Text
{
    std::unique_ptr<uint8_t, void (*)(void *)> p;
    const Bytes &t;
    Text(const Bytes &x) : p(sut::dup(x), free), t(x) {}
    void same() const { VP_REQUIRE(memcmp(p.get(), t.data(), t.size()) == 0 && p.get()[t.size()] == 0, "the text was modified"); }
};

// ------------------------------------------------------------------ C14
static void stats(const Bytes &t, flbwt::Container *k, const ref::Lms &m)
{
    uint64_t M[257] = {1}, C[257] = {1}, NL[257] = {};
    for (size_t i = 0; i < t.size(); i++)
    {
        M[t[i] + 1]++;
        if (!m.is_s[i])
            NL[t[i] + 1]++;
    }
    for (size_t p : m.pos)
        C[t[p] + 1]++;
    for (int i = 0; i <= 256; i++)
    {
        VP_REQUIRE(k->M[i] == M[i], "M[%d] is %lu, expected %lu", i, (unsigned long)k->M[i], (unsigned long)M[i]);
        VP_REQUIRE(k->C[i] == C[i], "C[%d] is %lu, expected %lu", i, (unsigned long)k->C[i], (unsigned long)C[i]);
        VP_REQUIRE(i == 0 || k->NL[i] == NL[i], "NL[%d] is %lu, expected %lu", i, (unsigned long)k->NL[i], (unsigned long)NL[i]);
    }
    VP_REQUIRE(k->num_of_substrings == m.pos.size(), "%lu pieces reported, expected %zu", (unsigned long)k->num_of_substrings, m.pos.size());
    VP_REQUIRE(k->head_string_end == m.head_end, "leading part ends at %lu, expected %zu", (unsigned long)k->head_string_end, m.head_end);
    VP_REQUIRE(k->n == t.size(), "length reported as %lu, is %zu", (unsigned long)k->n, t.size());
}
static uint64_t distinct(const ref::Lms &m)
{
    std::vector<const Bytes *> v;
    for (auto &x : m.subs)
        v.push_back(&x);
    std::sort(v.begin(), v.end(), [](const Bytes *a, const Bytes *b) { return *a < *b; });
    uint64_t u = 0;
    for (size_t i = 0; i < v.size(); i++)
        u += i == 0 || *v[i] != *v[i - 1];
    return u;
}
static void c14(const Bytes &t)
{
    ref::Lms m = ref::lms(t);
    Text x(t);
    std::unique_ptr<flbwt::Container> k(flbwt::extract_LMS_strings(x.p.get(), t.size()));
    VP_REQUIRE(k.get(), "no container");
    x.same();
    stats(t, k.get(), m);
    uint64_t u = distinct(m);
    VP_REQUIRE(k->num_of_unique_substrings == u, "%lu distinct pieces reported, expected %lu", (unsigned long)k->num_of_unique_substrings, (unsigned long)u);
}
static void c14_exh(Src &s, Ctx &c)
{
    static const std::vector<std::pair<int, int>> PQ = {{2, 13}, {3, 8}, {4, 6}, {5, 5}, {256, 1}}, PT = {{2, 18}, {3, 11}, {4, 9}, {5, 7}, {256, 2}};
    auto &P = thorough() ? PT : PQ;
    inter::lib_reset();
    uint64_t i = s.index(0), tot = sut::enum_count(P);
    int k;
    Bytes t = sut::enumerated(i % tot, 0, P, &k);
    sut::remap(t, k, i / tot + i);
    inter::ht_size = 61;
    c.note("text %s", ref::show(t).c_str());
    c.key(t.data(), t.size());
    c.nontrivial(t.size() >= 3);
    c14(t);
}
VP_PART(c14_exh, c14_exh, 500000, 2500000, 120, 0, 4096, "all strings over small alphabets up to a length; non-trivial: length >= 3");
static void c14_rand(Src &s, Ctx &c)
{
    inter::lib_reset();
    Bytes t = gen::text(s, 60000, &c);
    c.nontrivial(gen::classify(t, c));
    if (s.chance(1, 2))
        inter::ht_size = 1 + s.range(0, 2000);
    if (s.chance(1, 3))
        inter::hb_size = 32 + s.range(0, 4000);
    c14(t);
}
VP_PART(c14_rand, c14_rand, 150000, 3000000, 120, 0, 4096, "structured texts up to 60000 bytes; non-trivial: at least two S* substrings");
static void c14_big(Src &s, Ctx &c)
{
    inter::lib_reset();
    Bytes t;
    if (s.chance(2, 3))
        t = gen::text(s, 3000000, &c);
    else
    {
        uint64_t n = 100000 + s.range(0, 2000000), k = 2 + s.range(0, 254);
        Prng r(s.u64());
        t.resize(n);
        for (auto &x : t)
            x = r.below(k);
        c.key(t.data(), t.size());
    }
    c.nontrivial(gen::classify(t, c));
    c14(t);
}
VP_PART(c14_big, c14_big, 600, 10000, 300, 0, 8192, "texts up to 3 MB; non-trivial: at least two S* substrings");

// ------------------------------------------------------------------ C13
static void c13(const Bytes &t, Ctx &c, bool order)
{
    size_t n = t.size();
    ref::Lms m = ref::lms(t);
    Text x(t);
    std::unique_ptr<flbwt::Container> k(flbwt::extract_LMS_strings(x.p.get(), n));
    std::unique_ptr<uint8_t *, void (*)(void *)> S(flbwt::sort_LMS_strings(x.p.get(), k.get()), free);
    std::unique_ptr<flbwt::PackedArray> T1(flbwt::create_shortened_string(x.p.get(), n, k.get()));
    inter::lib_reset();
    VP_REQUIRE(S.get() && T1.get(), "no result");
    x.same();
    std::vector<const Bytes *> u;
    for (auto &b : m.subs)
        u.push_back(&b);
    std::sort(u.begin(), u.end(), [](const Bytes *a, const Bytes *b) { return piece_less(*a, *b); });
    u.erase(std::unique(u.begin(), u.end(), [](const Bytes *a, const Bytes *b) { return *a == *b; }), u.end());
    size_t total = m.pos.size() + 2;
    VP_REQUIRE(T1->get_length() == total, "the shortened string has %lu names, expected %zu", (unsigned long)T1->get_length(), total);
    VP_REQUIRE(T1->get_value(0) == u.size() + 1, "the leading part is named %lu, expected %zu", (unsigned long)T1->get_value(0), u.size() + 1);
    VP_REQUIRE(T1->get_value(total - 1) == 0, "the last name is %lu", (unsigned long)T1->get_value(total - 1));
    c.label(u.size() == m.subs.size() ? "all pieces distinct" : "repeated pieces");
    for (size_t j = 0; j < m.subs.size(); j++)
    {
        size_t e = std::lower_bound(u.begin(), u.end(), &m.subs[j], [](const Bytes *a, const Bytes *b) { return piece_less(*a, *b); }) - u.begin() + 1;
        uint64_t v = T1->get_value(j + 1);
        VP_REQUIRE(v == e, "piece %zu (%s) is named %lu, expected %zu of %zu", j, ref::show(m.subs[j], 60).c_str(), (unsigned long)v, e, u.size());
    }
    // the records behind the names
    flbwt::HashTable *h = k->hashtable;
    for (size_t i = 1; i <= u.size(); i++)
    {
        uint8_t *r = S.get()[i];
        const Bytes &b = *u[i - 1];
        VP_REQUIRE(h->get_length(r) == b.size(), "record %zu has length %lu, expected %zu", i, (unsigned long)h->get_length(r), b.size());
        uint8_t *f = h->get_first_character_pointer(r);
        VP_REQUIRE(memcmp(f, b.data(), b.size()) == 0, "record %zu holds other characters than piece %s", i, ref::show(b, 60).c_str());
        VP_REQUIRE(f[-1] == (uint8_t)(b[0] + 1), "record %zu: the byte before the piece is 0x%02x, expected 0x%02x", i, f[-1], (uint8_t)(b[0] + 1));
    }
    uint8_t *r = S.get()[u.size() + 1];
    size_t hl = m.head_end + 1;
    VP_REQUIRE(h->get_length(r) == hl, "the leading part has length %lu, expected %zu", (unsigned long)h->get_length(r), hl);
    uint8_t *f = h->get_first_character_pointer(r);
    VP_REQUIRE(memcmp(f, x.p.get(), hl) == 0, "the record of the leading part holds other characters");
    VP_REQUIRE(h->get_length(S.get()[0]) == 1, "the record of the end has length %lu", (unsigned long)h->get_length(S.get()[0]));
    if (!order || m.pos.size() < 2)
        return;
    // order of suffixes
    std::vector<uint32_t> sa = ref::suffix_array(t);
    std::vector<int32_t> which(n, -1);
    for (size_t j = 0; j < m.pos.size(); j++)
        which[m.pos[j]] = j;
    std::vector<uint32_t> names;
    for (size_t j = 0; j <= m.pos.size(); j++)
        names.push_back(T1->get_value(j + 1));
    std::vector<uint32_t> s1 = ref::suffix_array(names);
    size_t at = 1; // s1[0] is the end
    VP_REQUIRE(s1[0] == m.pos.size(), "the end marker is not the least suffix of the shortened string");
    for (uint32_t p : sa)
        if (which[p] >= 0)
        {
            VP_REQUIRE((int32_t)s1[at] == which[p], "suffix order differs at rank %zu: piece %u in the shortened string, piece %d in the text", at, s1[at], which[p]);
            at++;
        }
}
static void c13_exh(Src &s, Ctx &c)
{
    static const std::vector<std::pair<int, int>> PQ = {{2, 13}, {3, 8}, {4, 6}, {5, 5}, {6, 4}}, PT = {{2, 17}, {3, 11}, {4, 8}, {5, 7}, {6, 6}};
    auto &P = thorough() ? PT : PQ;
    inter::lib_reset();
    uint64_t i = s.index(0), tot = sut::enum_count(P);
    int k;
    Bytes t = sut::enumerated(i % tot, 0, P, &k);
    sut::remap(t, k, i / tot + i);
    inter::ht_size = 61;
    c.note("text %s", ref::show(t).c_str());
    c.key(t.data(), t.size());
    c.nontrivial(t.size() >= 4);
    c13(t, c, true);
}
VP_PART(c13_exh, c13_exh, 300000, 1500000, 120, 0, 4096, "all strings over 2-6 symbols up to a length; non-trivial: length >= 4");
static void c13_rand(Src &s, Ctx &c)
{
    inter::lib_reset();
    Bytes t = gen::text(s, 30000, &c);
    c.nontrivial(gen::classify(t, c));
    if (s.chance(2, 3))
        inter::ht_size = 1 + s.range(0, s.chance(1, 2) ? 5 : 2000);
    if (s.chance(1, 3))
        inter::hb_size = 32 + s.range(0, 2000);
    c13(t, c, t.size() < 6000);
}
VP_PART(c13_rand, c13_rand, 100000, 1500000, 120, 0, 4096, "structured texts up to 30000 bytes, tables of 1..2000 buckets and the real one; non-trivial: at least two S* substrings");
static void c13_big(Src &s, Ctx &c)
{
    inter::lib_reset();
    Bytes t = gen::text(s, 1500000, &c);
    c.nontrivial(gen::classify(t, c));
    c13(t, c, false);
}
VP_PART(c13_big, c13_big, 600, 12000, 300, 0, 8192, "texts up to 1.5 MB, the real table; non-trivial: at least two S* substrings");

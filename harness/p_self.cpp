// Self tests of the oracles against each other (no library code involved).
#include "sut.hpp"
using namespace vp;
using sut::Bytes;
static void self_ref(Src &s, Ctx &c)
{
    Bytes t = gen::text(s, 1200, &c), e;
    c.nontrivial(gen::classify(t, c));
    uint64_t last;
    ref::bwt(t, e, last);
    // by definition
    if (t.size() <= 120)
    {
        std::vector<size_t> sa(t.size() + 1);
        for (size_t i = 0; i <= t.size(); i++)
            sa[i] = i;
        std::sort(sa.begin(), sa.end(), [&](size_t a, size_t b) { return std::lexicographical_compare(t.begin() + a, t.end(), t.begin() + b, t.end()); });
        for (size_t i = 0; i <= t.size(); i++)
            VP_REQUIRE(sa[i] == 0 ? i == last : e[i] == t[sa[i] - 1], "naive transform is wrong at row %zu", i);
    }
    std::string m = ref::check_inverse(t.data(), t.size(), e.data(), last, false);
    VP_REQUIRE(m.empty(), "inversion rejects the naive transform: %s", m.c_str());
    // a wrong transform is rejected
    Bytes bad = e;
    uint64_t bl = last;
    size_t i = s.range(0, t.size());
    if (i == last)
        i = (i + 1) % (t.size() + 1);
    size_t j = s.range(0, t.size());
    if (s.chance(1, 3))
        bl = s.range(0, t.size());
    else if (s.chance(1, 2))
        bad[i] ^= 1 + s.range(0, 254);
    else if (j != last)
        std::swap(bad[i], bad[j]);
    bool same = bl == last;
    for (size_t q = 0; q <= t.size(); q++)
        same = same && (q == last || bad[q] == e[q]);
    m = ref::check_inverse(t.data(), t.size(), bad.data(), bl, false);
    VP_REQUIRE(same == m.empty(), "inversion %s a %s transform", m.empty() ? "accepts" : "rejects", same ? "correct" : "wrong");
    // run-length oracle
    ref::Rle r, o;
    for (uint8_t x : t)
        ref::push(r, x, 1);
    uint64_t l2;
    ref::bwt_rle(r, o, l2);
    VP_REQUIRE(l2 == last, "run-length oracle: rank %lu, expected %lu", (unsigned long)l2, (unsigned long)last);
    size_t row = 0;
    for (auto &x : o)
        for (uint64_t q = 0; q < x.n; q++)
        {
            if (row == last)
                row++;
            VP_REQUIRE(row <= t.size() && e[row] == x.c, "run-length oracle: row %zu", row);
            row++;
        }
    if (row == last)
        row++;
    VP_REQUIRE(row == t.size() + 1, "run-length oracle: %zu rows", row);
    c.label("sorter recursion depth " + std::to_string(ref::depth(t)));
}
VP_PART(self_ref, self_ref, 60000, 600000, 120, 0, 4096, "oracle self test");

// C17: queues against std::deque.
#include "vp.hpp"
#include "inter.hpp"
#include <deque>
#include <memory>
#include "queue.hpp"
using namespace vp;

struct Q
{
    flbwt::Queue q;
    std::deque<uint64_t> m;
    int w;
    uint64_t ops = 0, crossed = 0;
    Q(int w_) : q(w_), w(w_) {}
    uint64_t top() const { return w == 64 ? UINT64_MAX : (1ull << w) - 1; }
    void empty_ok() { VP_REQUIRE(q.is_empty() == m.empty(), "the queue says %s after %lu operations, it has %zu elements", q.is_empty() ? "empty" : "not empty", (unsigned long)ops, m.size()); }
    void back(uint64_t v)
    {
        q.enqueue(v & top());
        m.push_back(v & top());
        ops++;
        empty_ok();
    }
    void front(uint64_t v)
    {
        q.enqueue_l(v & top());
        m.push_front(v & top());
        ops++;
        empty_ok();
    }
    void pop()
    {
        if (m.empty())
            return;
        uint64_t v = q.dequeue(), e = m.front();
        m.pop_front();
        ops++;
        VP_REQUIRE(v == e, "removal number %lu gives 0x%lx, expected 0x%lx (%zu elements left)", (unsigned long)ops, (unsigned long)v, (unsigned long)e, m.size());
        empty_ok();
    }
};
static uint64_t burst(Src &s)
{
    switch (s.weighted({4, 3, 3, 1}))
    {
    case 0: return 1 + s.range(0, 5);
    case 1: return 1 + s.range(0, 300);
    case 2: return 1020 + s.range(0, 8); // around a storage block
    default: return 1 + s.range(0, 5000);
    }
}
static void c17_ops(Src &s, Ctx &c)
{
    int w = s.chance(1, 8) ? 64 : 1 + s.range(0, 63);
    size_t nops = 1 + s.range(0, 14);
    uint64_t most = 0;
    auto q = std::make_unique<Q>(w);
    c.note("width %d", w);
    c.key(w);
    q->empty_ok();
    bool both = false, f = false, b = false;
    for (size_t k = 0; k < nops; k++)
    {
        uint64_t n = burst(s);
        int kind = s.weighted({3, 3, 3, 2, 1, 1});
        Prng r(s.u64());
        c.key(n * 8 + kind);
        static const char *nm[] = {"back", "front", "remove", "mixed", "drain", "remove all but"};
        c.note("%s %lu", nm[kind], (unsigned long)n);
        c.label(nm[kind]);
        switch (kind)
        {
        case 0:
            for (uint64_t i = 0; i < n; i++)
                q->back(r.next());
            b = true;
            break;
        case 1:
            for (uint64_t i = 0; i < n; i++)
                q->front(r.next());
            f = true;
            break;
        case 2:
            for (uint64_t i = 0; i < n; i++)
                q->pop();
            break;
        case 3:
        {
            unsigned pb = 1 + s.range(0, 3), pf = s.range(0, 3), pr = s.range(0, 4);
            for (uint64_t i = 0; i < n; i++)
            {
                uint64_t x = r.below(pb + pf + pr);
                if (x < pb)
                    q->back(r.next());
                else if (x < pb + pf)
                    q->front(r.next());
                else
                    q->pop();
            }
            break;
        }
        case 4:
            while (!q->m.empty())
                q->pop();
            break;
        default:
            while (q->m.size() > n)
                q->pop();
        }
        most = std::max<uint64_t>(most, q->m.size());
    }
    both = f && b;
    if (s.chance(3, 4))
        while (!q->m.empty())
            q->pop();
    c.label(most > 1024 ? "several blocks" : "one block");
    if (both)
        c.label("both ends");
    c.nontrivial(q->ops >= 10);
}
VP_PART(c17_ops, c17_ops, 400000, 1200000, 120, 0, 4096, "1-15 bursts of operations of 1..5000 each, widths 1..64; non-trivial: at least ten operations");
static void c17_single(Src &s, Ctx &c)
{ // single operations around a block boundary
    int w = 1 + s.range(0, 63);
    auto q = std::make_unique<Q>(w);
    int64_t pre = s.pick<int>({0, 1, 2, 1022, 1023, 1024, 1025, 2047, 2048, 2049});
    bool front = s.chance(1, 2);
    for (int64_t i = 0; i < pre; i++)
        front ? q->front(i * 0x9e3779b97f4a7c15ull) : q->back(i * 0x9e3779b97f4a7c15ull);
    uint64_t rm = s.weighted({2, 1, 1}) == 0 ? 0 : s.range(0, pre);
    for (uint64_t i = 0; i < rm; i++)
        q->pop();
    size_t ops = 1 + s.range(0, 40);
    c.note("width %d, %ld at the %s, %lu removed, then %zu operations", w, (long)pre, front ? "front" : "back", (unsigned long)rm, ops);
    c.key(w * 100000 + pre);
    for (size_t k = 0; k < ops; k++)
    {
        int o = s.range(0, 2);
        c.key(o);
        uint64_t v = s.chance(1, 2) ? ~0ull : s.u64();
        if (o == 0)
            q->back(v);
        else if (o == 1)
            q->front(v);
        else
            q->pop();
    }
    while (!q->m.empty())
        q->pop();
    c.nontrivial(q->ops >= 10);
}
VP_PART(c17_single, c17_single, 1000000, 2500000, 120, 0, 4096, "operation sequences that start near a storage block boundary; non-trivial: at least ten operations");
static void c17_long(Src &s, Ctx &c)
{
    int w = 1 + s.range(0, 63);
    auto q = std::make_unique<Q>(w);
    uint64_t n = 100000 + s.range(0, 300000);
    Prng r(s.u64());
    uint64_t ph = 1 + s.range(0, 30000);
    c.note("width %d, %lu operations", w, (unsigned long)n);
    c.key(w * 1000000 + n);
    for (uint64_t i = 0; i < n; i++)
    {
        bool grow = (i / ph) % 2 == 0;
        uint64_t x = r.below(10);
        if (x < (grow ? 4 : 1))
            q->back(r.next());
        else if (x < (grow ? 7 : 2))
            q->front(r.next());
        else
            q->pop();
    }
    while (!q->m.empty())
        q->pop();
    c.nontrivial(true);
}
VP_PART(c17_long, c17_long, 3000, 6000, 300, 0, 4096, "100000..400000 operations, growing and shrinking phases; every case is non-trivial");

// Many elements: values are functions of their index, so that no model of them is kept.
static void run_grow(uint64_t target, int w, int how, uint64_t seed, Ctx &c, bool every)
{
    flbwt::Queue q(w);
    uint64_t top = w == 64 ? UINT64_MAX : (1ull << w) - 1;
    auto val = [&](uint64_t i) { return ((i + seed) * 0x9e3779b97f4a7c15ull >> 7 ^ i) & top; };
    // elements lo..hi-1 are in the queue, the front at lo
    uint64_t mid = 1ull << 40, lo = mid, hi = mid, ops = 0;
    auto chk = [&]() {
        bool e = q.is_empty();
        VP_REQUIRE(e == (lo == hi), "the queue says %s after %lu operations, it has %lu elements", e ? "empty" : "not empty", (unsigned long)ops, (unsigned long)(hi - lo));
    };
    auto near = [&]() { // sizes next to a multiple of 2^8 are looked at even when the others are not
        uint64_t k = hi - lo;
        return every || ((k + 1) & 0xff) < 3;
    };
    while (hi - lo < target)
    {
        if (how == 0 || (how == 2 && (ops & 1)))
            q.enqueue(val(hi++));
        else
            q.enqueue_l(val(--lo));
        ops++;
        if (near())
            chk();
    }
    chk();
    while (lo < hi)
    {
        uint64_t v = q.dequeue(), e = val(lo);
        VP_REQUIRE(v == e, "removal of element %lu of %lu gives 0x%lx, expected 0x%lx", (unsigned long)(target - (hi - lo)), (unsigned long)target, (unsigned long)v, (unsigned long)e);
        lo++;
        ops++;
        if (near())
            chk();
    }
    chk();
    c.nontrivial(true);
}
static void c17_grow(Src &s, Ctx &c)
{
    int w = 1 + s.range(0, 63);
    int k = s.weighted({3, 4, 2, 1});
    uint64_t base = k == 0 ? 256ull << s.range(0, 4) : k == 1 ? 65536 : k == 2 ? 65536ull * (1 + s.range(0, 7)) : 1ull << 20;
    uint64_t target = base + s.range(0, 3000);
    int how = s.range(0, 2);
    uint64_t seed = s.u64();
    static const char *nm[] = {"back", "front", "both"};
    c.note("width %d, %lu elements at the %s, then all of them removed", w, (unsigned long)target, nm[how]);
    c.key(w * 100000000ull + target);
    c.label(nm[how]);
    run_grow(target, w, how, seed, c, true);
}
VP_PART(c17_grow, c17_grow, 600, 3000, 60, 0, 4096, "growth to sizes beyond 2^8..2^20, is_empty after each step, then removal of all; every case is non-trivial");
static void c17_giant(Src &s, Ctx &c)
{
    uint64_t i = s.index(0);
    static const uint64_t T[] = {1ull << 24, 1ull << 32, 1ull << 31, 1ull << 32};
    uint64_t target = T[i % 4] + 1 + s.range(0, 2000);
    int w = i % 4 == 0 ? 1 + s.range(0, 63) : 1 + s.range(0, 1), how = i % 4 == 3 ? 1 : 0;
    c.note("width %d, %lu elements", w, (unsigned long)target);
    c.key(target);
    run_grow(target, w, how, s.u64(), c, false);
}
VP_PART(c17_giant, c17_giant, 2, 8, 900, 2, 0, "queues of more than 2^24 and 2^32 elements; every case is non-trivial");

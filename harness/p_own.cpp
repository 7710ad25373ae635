// C05: ownership and release of every resource.  Built with the tracking
// allocator: every block requested while `track` is set is in the ledger.
#include "files.hpp"
#include "inter.hpp"
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/un.h>
using namespace vp;
using sut::Bytes;

static const uint64_t WIDTH_MIN[5] = {0, 1ull << 31, 1ull << 39, 1ull << 47, 1ull << 55};

struct Track
{
    Track() { inter::track = true; }
    ~Track() { inter::track = false; }
};
static std::vector<int> fds()
{
    std::vector<int> v;
    for (int i = 0; i < 256; i++)
        if (fcntl(i, F_GETFD) >= 0)
            v.push_back(i);
    return v;
}
static void warm()
{ // first use of lazily initialised parts of the C and C++ libraries
    static bool done;
    if (done)
        return;
    done = true;
    inter::lib_reset();
    try
    {
        flbwt::bwt_string(nullptr, 0, false);
    }
    catch (std::exception &)
    {
    }
    sut::call(Bytes{3, 1, 2, 1, 2, 3}, true);
    std::string d = fs_::fresh();
    fs_::put(d + "/a", Bytes{1, 2, 3});
    try
    {
        flbwt::bwt_file((d + "/a").c_str(), (d + "/b").c_str());
        flbwt::bwt_file((d + "/none").c_str(), (d + "/b").c_str());
    }
    catch (std::exception &)
    {
    }
}
static void settings(Src &s, Ctx &c)
{
    inter::lib_reset();
    if (!s.chance(1, 12))
        inter::ht_size = 1 + s.range(0, s.chance(1, 2) ? 4 : 600);
    if (s.chance(1, 3))
        inter::hb_size = 32 + s.range(0, 1500);
    int w = s.weighted({4, 1, 1, 1, 1});
    inter::sa_raise = WIDTH_MIN[w];
    c.note("buckets %lu growth %lu width class %d", (unsigned long)inter::ht_size, (unsigned long)inter::hb_size, w);
    c.label("width class " + std::to_string(w));
}
static void balanced(const char *what)
{
    VP_REQUIRE(inter::led.bad_free == 0, "%s: %lu blocks were released twice", what, (unsigned long)inter::led.bad_free);
    if (inter::led.overflow)
        return;
    VP_REQUIRE(inter::led.live_blocks == 0, "%s: %lu blocks (%lu bytes) were not released", what, (unsigned long)inter::led.live_blocks, (unsigned long)inter::led.live_bytes);
}

// one in-memory transform with the ledger on
static void one(const Bytes &t, bool owned, bool check)
{
    inter::led_reset();
    uint8_t *p = sut::dup(t);
    sut::Result r;
    {
        Track tr;
        inter::led_adopt(p, t.size() + 1);
        uint64_t a = inter::led_alloc_seq(p);
        inter::watch = p;
        r = sut::Result(flbwt::bwt_string(p, t.size(), owned));
        inter::track = false;
        if (owned)
            VP_REQUIRE(inter::watch_seq, "the text was handed over but not released");
        else
        {
            VP_REQUIRE(!inter::watch_seq && inter::led_live(p) && inter::led_alloc_seq(p) == a, "the text was released although the caller kept it");
            VP_REQUIRE(memcmp(p, t.data(), t.size()) == 0 && p[t.size()] == 0, "the caller's text was modified");
        }
        VP_REQUIRE(r.r && r.r->BWT, "no result");
        if (inter::led.overflow == 0)
        {
            uint64_t expect = owned ? 2 : 3;
            VP_REQUIRE(inter::led_live(r.r) && inter::led_live(r.r->BWT), "the result is not allocated");
            VP_REQUIRE(inter::led.live_blocks <= expect, "%lu blocks (%lu bytes) are still allocated besides the result", (unsigned long)(inter::led.live_blocks - expect), (unsigned long)inter::led.live_bytes);
        }
        VP_REQUIRE(inter::led.bad_free == 0, "%lu blocks were released twice", (unsigned long)inter::led.bad_free);
        if (check)
            sut::check(t, r, t.size() <= 200);
        inter::track = true;
        r.release();
        if (!owned)
            free(p);
    }
    balanced("after the release of the result");
}
static void c05_exh(Src &s, Ctx &c)
{
    static const std::vector<std::pair<int, int>> P = {{2, 11}, {3, 7}, {4, 5}, {256, 1}};
    warm();
    inter::lib_reset();
    uint64_t i = s.index(0), tot = sut::enum_count(P);
    int k;
    Bytes t = sut::enumerated(i % tot, 0, P, &k);
    sut::remap(t, k, i % 4);
    inter::ht_size = 1 + i % 7;
    inter::sa_raise = WIDTH_MIN[(i / tot) % 5];
    c.note("text %s width class %lu", ref::show(t).c_str(), (unsigned long)(i / tot) % 5);
    c.key(t.data(), t.size());
    c.key((i / tot) % 5);
    c.nontrivial(t.size() >= 3);
    one(t, true, false);
    one(t, false, false);
}
VP_PART(c05_exh, c05_exh, 48000, 48000, 120, 0, 4096, "all strings over small alphabets up to a length, each width, both ownership choices; non-trivial: length >= 3");
static void c05_text(Src &s, Ctx &c)
{
    warm();
    settings(s, c);
    Bytes t = gen::text(s, s.chance(1, 20) ? 200000 : 20000, &c);
    c.nontrivial(gen::classify(t, c));
    bool owned = s.chance(1, 2);
    c.label(owned ? "handed over" : "kept");
    one(t, owned, false);
}
VP_PART(c05_text, c05_text, 60000, 1200000, 300, 0, 8192, "structured texts, small tables, each width, both ownership choices; non-trivial: at least two S* substrings");

// text that cannot be written to
static void c05_ro(Src &s, Ctx &c)
{
    warm();
    settings(s, c);
    Bytes t = gen::text(s, 8000, &c);
    c.nontrivial(gen::classify(t, c));
    size_t n = t.size(), len = (n + 1 + 4095) / 4096 * 4096, off = s.range(0, len - n - 1);
    uint8_t *m = (uint8_t *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    VP_REQUIRE(m != MAP_FAILED, "harness: mmap");
    memcpy(m + off, t.data(), n);
    mprotect(m, len, PROT_READ);
    inter::led_reset();
    {
        Track tr;
        sut::Result r(flbwt::bwt_string(m + off, n, false));
        r.release();
    }
    VP_REQUIRE(memcmp(m + off, t.data(), n) == 0, "the caller's text was modified");
    munmap(m, len);
    balanced("after the release of the result");
}
VP_PART(c05_ro, c05_ro, 30000, 400000, 120, 0, 4096, "texts in read-only memory (a write ends the process); non-trivial: at least two S* substrings");

// sequences of calls of every kind
static void c05_hist(Src &s, Ctx &c)
{
    warm();
    settings(s, c);
    std::string d = fs_::fresh();
    signal(SIGPIPE, SIG_IGN);
    size_t steps = 1 + s.range(0, 5);
    Bytes keep = {'k', 'e', 'e', 'p'};
    fs_::put(d + "/keep", keep);
    std::vector<int> open0 = fds();
    size_t kinds = 0;
    inter::led_reset();
    for (size_t k = 0; k < steps; k++)
    {
        Bytes t = gen::text(s, s.chance(1, 12) ? 60000 : 3000, k ? nullptr : &c);
        c.nontrivial(gen::classify(t, c) && steps >= 2);
        size_t op = s.weighted({3, 3, 1, 1, 1, 1, 1, 1, 1, 2, 1, 1, 1});
        static const char *nm[] = {"transform in memory", "transform a file", "missing input", "empty input", "input is a directory", "output in a missing directory",
                                   "output is a directory", "output is full", "null text", "writing fails", "no memory for the text", "read fails", "close fails"};
        c.label(std::string("step: ") + nm[op]);
        c.note("step %zu: %s (text of %zu bytes)", k, nm[op], t.size());
        if (op == 0)
        {
            one(t, s.chance(1, 2), false);
            inter::led_reset();
            continue;
        }
        std::string in = d + "/in", out = d + "/out";
        inter::FileFault ff;
        ff.in_path = in;
        ff.out_path = out;
        bool may_fail = true, must_fail = false;
        switch (op)
        {
        case 2: in = d + "/none", must_fail = true; break;
        case 3: t.clear(), must_fail = true; break;
        case 4: in = d, must_fail = true; break;
        case 5: out = d + "/none/out", must_fail = true; break;
        case 6: out = d, must_fail = true; break;
        case 7:
            // a link, so that no way of writing can reach the device node itself
            unlink(out.c_str());
            if (symlink("/dev/full", out.c_str())) fail("harness: symlink");
            break;
        case 9: ff.out_fail_at = s.range(0, t.size() + 7), ff.out_short = s.chance(1, 2), ff.out_chunk = s.chance(1, 2) ? 0 : 16 + s.range(0, 100); break;
        case 10:
            t.resize(std::max<size_t>(t.size(), 20000), 'x');
            break;
        case 11: ff.in_fail_read_at = s.range(0, 1); break;
        case 8: break;
        case 12: ff.out_close_fail = true; break;
        default: may_fail = false;
        }
        if (in == d + "/in")
            fs_::put(in, t);
        auto before = fs_::listing(d);
        if (op >= 9)
            inter::ff = &ff;
        bool threw = false;
        {
            Track tr;
            if (op == 10)
            {
                inter::fail_min = t.size();
                inter::fail_at = 1;
            }
            try
            {
                if (op == 8)
                {
                    flbwt::BWT_result *r = flbwt::bwt_string(nullptr, s.pick<uint64_t>({0, 1, 100}), false);
                    (void)r;
                }
                else
                    flbwt::bwt_file(in.c_str(), out.c_str());
            }
            catch (std::exception &)
            {
                threw = true;
            }
        }
        inter::ff = nullptr;
        inter::fail_at = 0;
        if (op == 7)
        {
            struct stat sb;
            must_fail = lstat(out.c_str(), &sb) == 0 && !S_ISREG(sb.st_mode); // not replaced by a file
            unlink(out.c_str());
            before.erase("out");
        }
        VP_REQUIRE(!must_fail || threw || op == 8, "%s: the call returned", nm[op]);
        VP_REQUIRE(may_fail || !threw, "%s: the call threw", nm[op]);
        if (threw)
            c.label("call failed");
        balanced(nm[op]);
        inter::led_reset();
        std::vector<int> now = fds();
        VP_REQUIRE(now == open0, "%s: %zu file descriptors are open, %zu before the call", nm[op], now.size(), open0.size());
        auto after = fs_::listing(d);
        for (auto &x : after)
            VP_REQUIRE(before.count(x.first) || x.first == "out", "%s: stray file %s", nm[op], x.first.c_str());
        for (auto &x : before)
            VP_REQUIRE(x.first == "out" || (after.count(x.first) && after[x.first] == x.second), "%s: file %s was changed", nm[op], x.first.c_str());
    }
}
VP_PART(c05_hist, c05_hist, 60000, 1000000, 120, 0, 8192, "sequences of 1-6 transforms in memory and of files, failing ones included: blocks, descriptors and directory; non-trivial: at least two steps and at least two S* substrings");

// C02, C03: files.
#include "files.hpp"
#include "inter.hpp"
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/mman.h>
using namespace vp;
using sut::Bytes;

// ------------------------------------------------------------------ C02
static Bytes file_text(Src &s, size_t maxn, Ctx *c)
{
    Bytes t = gen::text(s, maxn, c);
    switch (s.weighted({8, 1, 1, 1, 1}))
    {
    case 1:
    { // text lines, both line ends
        Bytes o;
        for (size_t i = 0; i < t.size(); i++)
        {
            o.push_back(t[i]);
            if (t[i] % 7 == 3)
            {
                if (t[i] & 8)
                    o.push_back('\r');
                o.push_back('\n');
            }
        }
        t.swap(o);
        if (c)
            c->label("line ends");
        break;
    }
    case 2: t.push_back(0x1a); break;
    case 3: t.insert(t.begin(), {0xef, 0xbb, 0xbf}); break;
    case 4: t.insert(t.end(), 1 + s.range(0, 9), 0); break;
    default: break;
    }
    if (t.size() > maxn)
        t.resize(maxn);
    return t;
}
static void roundtrip(const Bytes &t, Ctx &c, const std::string &in, const std::string &out)
{
    fs_::put(in, t);
    flbwt::bwt_file(in.c_str(), out.c_str());
    Bytes f, back;
    VP_REQUIRE(fs_::get(out, f), "no output file");
    bool ok = fs_::decode(f, back);
    VP_REQUIRE(ok, "output cannot be inverted (%zu bytes for %zu bytes of input)", f.size(), t.size());
    VP_REQUIRE(back.size() == t.size(), "inversion gives %zu bytes, input had %zu", back.size(), t.size());
    for (size_t i = 0; i < t.size(); i++)
        VP_REQUIRE(back[i] == t[i], "inversion gives 0x%02x at offset %zu, input has 0x%02x", back[i], i, t[i]);
}
static void c02_exh(Src &s, Ctx &c)
{
    static const std::vector<std::pair<int, int>> P = {{2, 9}, {3, 5}, {4, 4}, {256, 1}};
    inter::lib_reset();
    uint64_t i = s.index(0), tot = sut::enum_count(P);
    int k;
    Bytes t = sut::enumerated(i % tot, 0, P, &k);
    sut::remap(t, k, i / tot);
    c.key(t.data(), t.size());
    c.note("file %s", ref::show(t).c_str());
    c.nontrivial(t.size() >= 2);
    std::string d = fs_::fresh();
    roundtrip(t, c, d + "/in", d + "/out");
}
VP_PART(c02_exh, c02_exh, 8000, 8000, 120, 0, 4096, "all files over 2-4 symbols up to a length, four byte maps; non-trivial: length >= 2");
static void c02_rand(Src &s, Ctx &c)
{
    inter::lib_reset();
    Bytes t = file_text(s, 40000, &c);
    c.nontrivial(gen::classify(t, c));
    std::string d = fs_::fresh();
    roundtrip(t, c, d + "/in", d + "/out");
}
VP_PART(c02_rand, c02_rand, 60000, 1200000, 120, 0, 4096, "structured files up to 40000 bytes; non-trivial: at least two S* substrings");
static void c02_big(Src &s, Ctx &c)
{
    inter::lib_reset();
    uint64_t maxn = thorough() ? 30000000 : 12000000;
    Bytes t;
    switch (s.range(0, 4))
    {
    case 0: t = gen::text(s, maxn, &c); break;
    case 1:
    { // few letters
        uint64_t n = 100000 + s.range(0, 3000000), k = 2 + s.range(0, 6);
        Prng r(s.u64());
        t.resize(n);
        for (auto &x : t)
            x = 'a' + r.below(k);
        c.label("family:bigrandom");
        break;
    }
    case 2:
    { // long runs
        uint64_t n = 1000000 + s.range(0, maxn - 1000000);
        Prng r(s.u64());
        while (t.size() < n)
            t.insert(t.end(), 1 + r.below(r.below(4) ? 2000 : 200000), r.below(4) * 85);
        t.resize(n);
        c.label("family:bigruns");
        break;
    }
    case 3:
    { // word-like
        uint64_t n = 200000 + s.range(0, 3000000), w = 50 + s.range(0, 4000);
        Prng r(s.u64());
        std::vector<Bytes> dict(w);
        for (auto &x : dict)
        {
            uint64_t l = 1 + r.below(9);
            for (uint64_t i = 0; i < l; i++)
                x.push_back('a' + r.below(r.below(26) + 1));
        }
        while (t.size() < n)
        {
            uint64_t i = r.below(r.below(w) + 1);
            t.insert(t.end(), dict[i].begin(), dict[i].end());
            t.push_back(r.below(12) ? ' ' : '\n');
        }
        c.label("family:prose");
        break;
    }
    default:
    { // long period
        uint64_t n = 500000 + s.range(0, 3000000), p = 1 + s.range(0, 5000);
        Prng r(s.u64());
        Bytes u(p);
        for (auto &x : u)
            x = r.next();
        for (uint64_t i = 0; i < n; i++)
            t.push_back(u[i % p]);
        c.label("family:bigperiodic");
    }
    }
    c.note("n=%zu", t.size());
    c.key(t.data(), t.size());
    c.nontrivial(t.size() > 65536);
    std::string d = fs_::fresh();
    roundtrip(t, c, d + "/in", d + "/out");
    fs_::wipe(d);
}
VP_PART(c02_big, c02_big, 48, 1500, 600, 0, 12288, "files up to 12 MB (30 MB thorough); non-trivial: more than 64 kB");

// ------------------------------------------------------------------ C03
// expected file content from the in-memory result
static Bytes layout(const Bytes &t, const sut::Result &r)
{
    Bytes f(8);
    for (int i = 0; i < 8; i++)
        f[i] = r.r->last >> (56 - 8 * i);
    for (size_t i = 0; i <= t.size(); i++)
        if (i != r.r->last)
            f.push_back(r.r->BWT[i]);
    return f;
}
static void same_file(const std::string &p, const Bytes &e, const char *what)
{
    Bytes f;
    VP_REQUIRE(fs_::get(p, f), "%s: no output file", what);
    VP_REQUIRE(f.size() == e.size(), "%s: output has %zu bytes, expected %zu", what, f.size(), e.size());
    for (size_t i = 0; i < e.size(); i++)
        VP_REQUIRE(f[i] == e[i], "%s: output byte %zu is 0x%02x, expected 0x%02x", what, i, f[i], e[i]);
}
static void c03_state(Src &s, Ctx &c)
{
    inter::lib_reset();
    std::string d = fs_::fresh();
    size_t steps = 1 + s.range(0, 3);
    std::string prev_out;
    for (size_t k = 0; k < steps; k++)
    {
        Bytes t = file_text(s, s.chance(1, 8) ? 100000 : 6000, k ? nullptr : &c);
        c.nontrivial(gen::classify(t, c));
        sut::Result r = sut::call(t, true);
        VP_REQUIRE(r.r && r.r->BWT && r.r->last <= t.size(), "no usable in-memory result");
        Bytes e = layout(t, r);
        r.release();
        std::string in = d + "/in" + (s.chance(1, 2) ? std::to_string(k) : ""), out = d + "/out";
        fs_::put(in, t);
        bool inplace = false;
        int st = s.weighted({4, 3, 2, 2, 2, 2, 1, 1});
        static const char *nm[] = {"as left by the previous step", "longer content", "shorter content", "in place", "symlink to a file", "removed before", "same file by hard link", "dangling symlink"};
        switch (st)
        {
        case 0: break;
        case 1:
            unlink(out.c_str());
            fs_::put(out, Bytes(e.size() + 1 + s.range(0, 5000), s.byte()));
            break;
        case 2:
            unlink(out.c_str());
            fs_::put(out, Bytes(s.range(0, e.size()), s.byte()));
            break;
        case 3:
            out = in;
            inplace = true;
            break;
        case 4:
            unlink(out.c_str());
            fs_::put(d + "/target", Bytes(s.range(0, 9000), 'x'));
            VP_REQUIRE(symlink("target", out.c_str()) == 0, "harness: symlink");
            break;
        case 5: unlink(out.c_str()); break;
        case 6:
            unlink(out.c_str());
            VP_REQUIRE(link(in.c_str(), out.c_str()) == 0, "harness: link");
            inplace = true;
            break;
        default:
            unlink(out.c_str());
            unlink((d + "/nothing").c_str());
            VP_REQUIRE(symlink("nothing", out.c_str()) == 0, "harness: symlink");
        }
        c.label(std::string("output ") + nm[st]);
        c.note("step %zu: output %s", k, nm[st]);
        {
            struct stat a, b; // a link made by an earlier step may still be there
            if (stat(in.c_str(), &a) == 0 && stat(out.c_str(), &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev)
                inplace = true;
        }
        auto before = fs_::listing(d);
        flbwt::bwt_file(in.c_str(), out.c_str());
        same_file(out, e, nm[st]);
        if (!inplace)
        {
            Bytes x;
            VP_REQUIRE(fs_::get(in, x) && x == t, "input file was changed");
        }
        auto after = fs_::listing(d);
        std::string o = out.substr(d.size() + 1);
        for (auto &x : after)
            if (!before.count(x.first))
                VP_REQUIRE(x.first == o || (st == 7 && x.first == "nothing"), "unexpected file %s", x.first.c_str());
        for (auto &x : before)
        {
            VP_REQUIRE(after.count(x.first), "file %s disappeared", x.first.c_str());
            bool may = x.first == o || (inplace && x.first == in.substr(d.size() + 1)) || (st == 4 && x.first == "target");
            // a previous link of this path leads to another file
            struct stat a, b;
            if (stat((d + "/" + x.first).c_str(), &a) == 0 && stat(out.c_str(), &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev)
                may = true;
            VP_REQUIRE(may || after[x.first] == x.second, "file %s was changed", x.first.c_str());
        }
    }
}
VP_PART(c03_state, c03_state, 50000, 900000, 120, 0, 4096, "1-4 transforms in one directory with varying state of the output path; non-trivial: some text has at least two S* substrings");

// every rank position for short texts, through the substituted transform
static uint64_t m_last;
static Bytes m_rows;
static bool m_called;
static void *mock_small(uint8_t *T, uint64_t n, bool free_T)
{
    m_called = true;
    flbwt::BWT_result *r = (flbwt::BWT_result *)malloc(sizeof(flbwt::BWT_result));
    r->last = m_last;
    r->BWT = new uint8_t[n + 1];
    memcpy(r->BWT, m_rows.data(), n + 1);
    if (free_T)
        free(T);
    return r;
}
static void c03_rank(Src &s, Ctx &c)
{
    inter::lib_reset();
    uint64_t n = s.chance(1, 2) ? 1 + s.range(0, 20) : 1 + s.range(0, 140000);
    Prng r(s.u64());
    m_rows.resize(n + 1);
    for (auto &x : m_rows)
        x = r.next();
    switch (s.weighted({2, 1, 1, 4}))
    {
    case 0: m_last = n - (s.chance(1, 2) ? 0 : std::min<uint64_t>(n, s.range(0, 3))); break;
    case 1: m_last = 0; break;
    case 2: m_last = std::min<uint64_t>(n, s.pick<uint64_t>({1, 255, 256, 257, 65535, 65536, 65537, 4095, 4096})); break;
    default: m_last = s.range(0, n);
    }
    c.note("n=%lu rank=%lu", (unsigned long)n, (unsigned long)m_last);
    c.key(n * 1000003 + m_last);
    c.label(m_last == 0 ? "rank 0" : m_last == n ? "rank n" : m_last < 256 ? "rank <256" : m_last < 65536 ? "rank <65536" : "rank >=65536");
    c.nontrivial(m_last > 0 && m_last < n);
    std::string d = fs_::fresh();
    fs_::put(d + "/in", Bytes(n, 'a'));
    inter::mock = mock_small;
    m_called = false;
    flbwt::bwt_file((d + "/in").c_str(), (d + "/out").c_str());
    inter::mock = nullptr;
    if (!m_called)
    {
        c.label("the transform cannot be substituted");
        c.nontrivial(false);
        return;
    }
    Bytes e(8);
    for (int i = 0; i < 8; i++)
        e[i] = m_last >> (56 - 8 * i);
    for (uint64_t i = 0; i <= n; i++)
        if (i != m_last)
            e.push_back(m_rows[i]);
    same_file(d + "/out", e, "substituted transform");
}
VP_PART(c03_rank, c03_rank, 60000, 1000000, 120, 0, 4096, "file writer with a substituted transform: every rank position; non-trivial: rank inside the text");

// ranks and lengths beyond 2^32 and 2^40: sparse input, huge transfers recorded
static uint64_t v_last, v_n;
static std::vector<uint64_t> v_points;
static uint8_t v_row(uint64_t row);
static bool v_called;
static void *mock_huge(uint8_t *T, uint64_t n, bool free_T)
{
    v_called = true;
    v_n = n;
    flbwt::BWT_result *r = (flbwt::BWT_result *)malloc(sizeof(flbwt::BWT_result));
    r->last = v_last;
    r->BWT = new uint8_t[n + 1];
    for (uint64_t x : v_points)
        r->BWT[x] = v_row(x);
    if (free_T)
        free(T);
    return r;
}
// rows around the ends, the rank and every multiple of 2^32 are looked at
static uint8_t v_row(uint64_t row)
{
    uint64_t x = row * 0x9e3779b97f4a7c15ull;
    return 1 + (x >> 40) % 255;
}
static uint64_t v_header, v_bad_at, v_seen;
static bool v_bad;
static void v_see(uint64_t pos, const uint8_t *p, uint64_t n)
{
    uint64_t i = 0;
    for (; i < n && pos + i < 8; i++)
    {
        int sh = 56 - 8 * (pos + i);
        v_header = (v_header & ~(0xffull << sh)) | (uint64_t)p[i] << sh;
    }
    if (pos + n <= 8)
        return;
    // output bytes [lo, hi) of the rows without the marked one
    uint64_t lo = pos + i - 8, hi = pos + n - 8;
    auto at = [](uint64_t row) { return row > v_last ? row - 1 : row; };
    auto it = std::lower_bound(v_points.begin(), v_points.end(), lo);
    for (; it != v_points.end() && *it <= hi; ++it)
    {
        uint64_t row = *it, o = at(row);
        if (row == v_last || o < lo || o >= hi)
            continue;
        v_seen++;
        if (p[i + (o - lo)] != v_row(row) && !v_bad)
        {
            v_bad = true;
            v_bad_at = o;
        }
    }
}
static int huge_run(const std::string &in, const std::string &out, uint64_t n, std::string &err)
{
    // 0 fine, 1 wrong, 2 not applicable
    static inter::Virt vi;
    vi = inter::Virt();
    vi.in_path = in;
    vi.out_path = out;
    vi.in_size = n;
    vi.see = v_see;
    v_header = v_bad_at = v_seen = 0;
    v_bad = v_called = false;
    v_points.clear();
    for (uint64_t c = 0; c <= n; c += 1ull << 32)
        for (int64_t d = -3; d <= 9; d++)
            if (c + d <= n)
                v_points.push_back(c + d);
    for (int64_t d = -9; d <= 9; d++)
        for (uint64_t c : {v_last, n})
            if (c + d <= n)
                v_points.push_back(c + d);
    std::sort(v_points.begin(), v_points.end());
    v_points.erase(std::unique(v_points.begin(), v_points.end()), v_points.end());
    inter::virt = &vi;
    inter::sparse_malloc = true;
    inter::mock = mock_huge;
    try
    {
        flbwt::bwt_file(in.c_str(), out.c_str());
    }
    catch (std::exception &e)
    {
        err = std::string("exception: ") + e.what();
    }
    inter::virt = nullptr;
    inter::sparse_malloc = false;
    inter::mock = nullptr;
    if (!vi.opened_in || (err.empty() && (!vi.opened_out || !v_called)))
    {
        err.clear();
        return 2;
    }
    if (!err.empty())
        return 1;
    char b[400];
    if (v_n != n)
    {
        snprintf(b, sizeof b, "the transform was called for %lu of %lu bytes", (unsigned long)v_n, (unsigned long)n);
        err = b;
    }
    else if (vi.out_size != n + 8)
    {
        snprintf(b, sizeof b, "%lu bytes were written for %lu bytes of input", (unsigned long)vi.out_size, (unsigned long)n);
        err = b;
    }
    else if (v_header != v_last)
    {
        snprintf(b, sizeof b, "header says rank %lu (0x%lx), expected %lu (0x%lx)", (unsigned long)v_header, (unsigned long)v_header, (unsigned long)v_last, (unsigned long)v_last);
        err = b;
    }
    else if (v_bad)
    {
        snprintf(b, sizeof b, "byte %lu of the transform does not stand at offset %lu + 8 of the output (rank %lu)", (unsigned long)v_bad_at, (unsigned long)v_bad_at, (unsigned long)v_last);
        err = b;
    }
    else if (v_seen + 1 < v_points.size())
        err = "some rows were not written";
    return err.empty() ? 0 : 1;
}
static int huge_child(const std::string &in, const std::string &out, uint64_t n)
{
    struct rlimit rl = {6, 8};
    setrlimit(RLIMIT_CPU, &rl);
    // is this way of reading and writing seen at all?
    std::string err;
    uint64_t keep = v_last;
    v_last = 7;
    int r = truncate(in.c_str(), 1000) ? 2 : huge_run(in, out, 1000, err);
    v_last = keep;
    if (r != 0 || truncate(in.c_str(), n))
        return 2;
    err.clear();
    r = huge_run(in, out, n, err);
    if (r == 1)
        fs_::put(vp::scratch() + "/err", (const uint8_t *)err.data(), err.size());
    return r;
}
static void c03_huge(Src &s, Ctx &c)
{
    inter::lib_reset();
    std::string d = fs_::fresh();
    int b = 32 + s.range(0, 10);
    uint64_t n = (1ull << b) + s.range(0, 1ull << (b - 1));
    static int slow; // transfers in small pieces take too long for the larger sizes
    if (slow > 3)
    {
        c.label("transfers in pieces too small for this");
        return;
    }
    if (slow)
        n = (1ull << 32) + n % 5;
    switch (s.weighted({1, 1, 4}))
    {
    case 0: v_last = n; break;
    case 1: v_last = n - 1 - s.range(0, 1ull << 31); break;
    default: v_last = s.range(0, n);
    }
    c.note("n=%lu rank=0x%lx", (unsigned long)n, (unsigned long)v_last);
    c.key(v_last);
    c.label("length 2^" + std::to_string(b));
    int fd = open((d + "/in").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    VP_REQUIRE(fd >= 0, "harness: create");
    int rc = ftruncate(fd, n);
    close(fd);
    if (rc != 0)
    {
        c.label("file system does not hold sparse files of this size");
        return;
    }
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0)
    {
        int r = 2;
        try
        {
            r = huge_child(d + "/in", d + "/out", n);
        }
        catch (...)
        {
        }
        _exit(r);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        c.nontrivial(true);
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 1)
    {
        Bytes e;
        fs_::get(vp::scratch() + "/err", e);
        fail("%.*s", (int)e.size(), (const char *)e.data());
    }
    else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGABRT))
        fail("crash (signal %d) while reading or writing a file of %lu bytes", WTERMSIG(st), (unsigned long)n);
    else if ((WIFEXITED(st) && WEXITSTATUS(st) == 3) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU))
    {
        slow++;
        c.label("transfers in small pieces");
    }
    else
        c.label("not observable with this way of reading or writing");
}
VP_PART(c03_huge, c03_huge, 3000, 20000, 300, 0, 0, "sparse files of 2^32..2^43 bytes, substituted transform, streams without storage; non-trivial: the transfers were observed");

// C08: rejected arguments and unusable files.  C09: I/O faults.
#include "files.hpp"
#include "inter.hpp"
#include <signal.h>
#include <stdexcept>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/wait.h>
using namespace vp;
using sut::Bytes;

enum Outcome
{
    RETURNED,
    INVALID,
    RUNTIME,
    OTHER_STD,
    NOT_STD
};
static const char *oname[] = {"returned", "threw invalid_argument", "threw runtime_error", "threw another std::exception", "threw something that is no std::exception"};
template <class F> static Outcome attempt(F f)
{
    try
    {
        f();
        return RETURNED;
    }
    catch (std::invalid_argument &e)
    {
        (void)e.what();
        return INVALID;
    }
    catch (std::runtime_error &)
    {
        return RUNTIME;
    }
    catch (std::exception &)
    {
        return OTHER_STD;
    }
    catch (vp::Fail &)
    {
        throw;
    }
    catch (...)
    {
        return NOT_STD;
    }
}
static Outcome file(const std::string &in, const std::string &out)
{
    return attempt([&] { flbwt::bwt_file(in.c_str(), out.c_str()); });
}
static void correct(const std::string &out, const Bytes &t, const char *what)
{
    Bytes f;
    VP_REQUIRE(fs_::get(out, f), "%s: no output file", what);
    std::string e = fs_::check_file(t, f);
    VP_REQUIRE(e.empty(), "%s: %s", what, e.c_str());
}
static std::vector<int> fds()
{
    std::vector<int> v;
    for (int i = 0; i < 256; i++)
        if (fcntl(i, F_GETFD) >= 0)
            v.push_back(i);
    return v;
}
// unusable paths must never make a case wait for ever
struct Alarm
{
    Alarm(int s)
    {
        signal(SIGALRM, SIG_DFL);
        alarm(s);
    }
    ~Alarm() { alarm(0); }
};

// ------------------------------------------------------------------ C08
static void c08_args(Src &s, Ctx &c)
{
    inter::lib_reset();
    Alarm al(100);
    size_t steps = 1 + s.range(0, 5);
    size_t bad = 0;
    for (size_t k = 0; k < steps; k++)
    {
        Bytes t = gen::text(s, 2000, k ? nullptr : &c);
        int op = s.weighted({2, 1, 1, 1});
        uint64_t big = s.pick<uint64_t>({1, 2, 1000, 1ull << 32, ~0ull, ~0ull - 1, 1ull << 63});
        bool fr = s.chance(1, 2);
        c.note("step %zu: %s", k, op == 0 ? "valid" : op == 1 ? "null, length 0" : op == 2 ? "null, positive length" : "text, length 0");
        flbwt::BWT_result *r = (flbwt::BWT_result *)1;
        if (op == 0)
        {
            sut::Result q = sut::call(t, fr);
            sut::check(t, q, t.size() < 100);
            continue;
        }
        bad++;
        Outcome o;
        if (op == 3)
        {
            uint8_t *p = sut::dup(t);
            Bytes copy(p, p + t.size() + 1);
            o = attempt([&] { r = flbwt::bwt_string(p, 0, false); });
            VP_REQUIRE(memcmp(p, copy.data(), copy.size()) == 0, "a rejected text was modified");
            free(p);
        }
        else
            o = attempt([&] { r = flbwt::bwt_string(nullptr, op == 1 ? 0 : big, fr); });
        VP_REQUIRE(o == INVALID, "%s: the call %s, expected invalid_argument", op == 3 ? "length 0" : "null text", oname[o]);
    }
    c.key(steps * 31 + bad);
    c.nontrivial(bad > 0 && bad < steps);
}
VP_PART(c08_args, c08_args, 60000, 1000000, 120, 0, 4096, "sequences of valid and invalid calls in memory; non-trivial: both kinds occur");

struct InState
{
    std::string path;
    bool usable;
    unsigned allowed; // set of outcomes
    std::string hold; // path whose content must stay, when unusable
};
static int fifo_fd = -1;
static int nofile_old = 0;
static unsigned bit(Outcome o) { return 1u << o; }
static const char *in_names[] = {"regular file", "missing", "empty path", "component is a file", "symlink loop", "name too long", "directory", "empty file", "FIFO", "socket",
                                 "/dev/null", "dangling symlink", "path too long", "symlink to a file", "procfs file", "no descriptors left", "read error", "trailing slash", "seek error", "no permission"};
static const char *out_names[] = {"new file", "existing file", "missing directory", "directory", "empty path", "name too long", "symlink loop", "component is a file", "socket", "trailing slash", "path too long", "same as input", "no permission", "no permission in the directory"};

// search permission on the way to the scratch directory; then another user
static bool lend(const std::string &d)
{
    static bool done;
    for (size_t i = d.size(); !done && i != std::string::npos && i > 4; i = d.rfind('/', i - 1))
    {
        struct stat st;
        std::string p = d.substr(0, i);
        if (stat(p.c_str(), &st) || st.st_uid != geteuid())
            return false;
        if (!(st.st_mode & 1) && chmod(p.c_str(), (st.st_mode & 07777) | 0011))
            return false;
    }
    done = true;
    return geteuid() == 0 && seteuid(65534) == 0;
}
static void c08_file(Src &s, Ctx &c)
{
    inter::lib_reset();
    Alarm al(100);
    signal(SIGPIPE, SIG_IGN);
    std::string d = fs_::fresh();
    size_t steps = 1 + s.range(0, 3);
    size_t bad = 0, good = 0;
    for (size_t k = 0; k < steps; k++)
    {
        Bytes t = gen::text(s, s.chance(1, 10) ? 30000 : 1500, k ? nullptr : &c);
        gen::classify(t, c);
        size_t is = s.weighted({8, 2, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1});
        size_t os = s.weighted({3, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1, 1});
        if (is != 0 && is != 13 && s.chance(2, 3))
            os = s.range(0, 1) ? 1 : 0; // look at the output mostly when the input is the culprit
        c.label(std::string("input: ") + in_names[is]);
        c.label(std::string("output: ") + out_names[os]);
        c.note("step %zu: input %s, output %s", k, in_names[is], out_names[os]);
        c.key(is * 20 + os);
        fs_::wipe(d);
        // input
        std::string in = d + "/in";
        bool in_ok = false;
        unsigned in_allowed = bit(INVALID);
        int fifo = -1, nofile = 0;
        inter::FileFault ff;
        ff.in_path = in;
        switch (is)
        {
        case 0:
            fs_::put(in, t);
            in_ok = true;
            break;
        case 1: break;
        case 2: in = ""; break;
        case 3:
            fs_::put(d + "/f", t);
            in = d + "/f/in";
            break;
        case 4:
            if (symlink("in", in.c_str())) fail("harness: symlink");
            break;
        case 5: in = d + "/" + std::string(300, 'a'); break;
        case 6:
            if (s.chance(1, 2))
                in = d;
            else
                mkdir(in.c_str(), 0700);
            in_allowed = bit(RUNTIME) | bit(INVALID);
            break;
        case 7:
            fs_::put(in, Bytes());
            in_allowed = bit(RUNTIME) | bit(INVALID);
            break;
        case 8:
            if (mkfifo(in.c_str(), 0600)) fail("harness: mkfifo");
            fifo = open(in.c_str(), O_RDWR | O_CLOEXEC);
            if (s.chance(1, 2))
            {
                Bytes part(t.begin(), t.begin() + std::min<size_t>(t.size(), 4000));
                if (write(fifo, part.data(), part.size()) < 0) fail("harness: write");
            }
            in_allowed = bit(RUNTIME);
            break;
        case 9:
        {
            int sk = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
            struct sockaddr_un a;
            memset(&a, 0, sizeof a);
            a.sun_family = AF_UNIX;
            snprintf(a.sun_path, sizeof a.sun_path, "%s", in.c_str());
            if (sk < 0 || in.size() >= sizeof a.sun_path || bind(sk, (struct sockaddr *)&a, sizeof a))
                c.label("no socket"); // the path is missing then
            close(sk);
            break;
        }
        case 10:
            if (symlink("/dev/null", in.c_str())) fail("harness: symlink");
            in_allowed = bit(RUNTIME) | bit(INVALID);
            break;
        case 11:
            if (symlink("nothing", in.c_str())) fail("harness: symlink");
            break;
        case 12:
            in = d;
            while (in.size() < 5000)
                in += "/.";
            in += "/x";
            break;
        case 13:
            fs_::put(d + "/f", t);
            if (symlink("f", in.c_str())) fail("harness: symlink");
            in_ok = true;
            break;
        case 14:
            in = "/proc/self/statm"; // size 0
            in_allowed = bit(RUNTIME) | bit(INVALID);
            break;
        case 15:
            fs_::put(in, t);
            nofile = 1;
            break;
        case 16:
            fs_::put(in, t);
            ff.in_fail_read_at = 0;
            in_allowed = bit(RUNTIME);
            break;
        case 17:
            fs_::put(in, t);
            in += "/";
            break;
        case 19:
            fs_::put(in, t);
            break;
        default:
            fs_::put(in, t);
            ff.in_seek_fail = true;
            in_allowed = bit(RUNTIME);
        }
        // output
        std::string out = d + "/out";
        Bytes old;
        bool out_ok = false;
        switch (os)
        {
        case 0: out_ok = true; break;
        case 1:
            old.assign(1 + s.range(0, 3000), s.byte());
            fs_::put(out, old);
            out_ok = true;
            break;
        case 2: out = d + "/none/out"; break;
        case 3:
            if (s.chance(1, 2))
                out = d;
            else
                mkdir(out.c_str(), 0700);
            break;
        case 4: out = ""; break;
        case 5: out = d + "/" + std::string(300, 'b'); break;
        case 6:
            if (symlink("out", out.c_str())) fail("harness: symlink");
            break;
        case 7:
            fs_::put(d + "/g", Bytes(3, 'g'));
            out = d + "/g/out";
            break;
        case 8:
        {
            int sk = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
            struct sockaddr_un a;
            memset(&a, 0, sizeof a);
            a.sun_family = AF_UNIX;
            snprintf(a.sun_path, sizeof a.sun_path, "%s", out.c_str());
            if (sk < 0 || out.size() >= sizeof a.sun_path || bind(sk, (struct sockaddr *)&a, sizeof a))
                out_ok = true;
            close(sk);
            break;
        }
        case 9: out += "/"; break;
        case 10:
            out = d;
            while (out.size() < 5000)
                out += "/.";
            out += "/x";
            break;
        case 12:
            old.assign(1 + s.range(0, 3000), s.byte());
            fs_::put(out, old);
            break;
        case 13: break;
        default:
            out = in;
            if (in_ok)
                out_ok = true;
        }
        auto before = fs_::listing(d);
        bool drop = is == 19 || os == 12 || os == 13;
        if (drop)
        { // the library runs as another user, who can get here but not more
            if (in_ok)
                chmod((is == 13 ? d + "/f" : in).c_str(), 0644);
            if (!lend(d))
            {
                c.label("no other user");
                continue;
            }
        }
        std::vector<int> open0 = fds();
        struct rlimit rl, low;
        getrlimit(RLIMIT_NOFILE, &rl);
        if (nofile)
        {
            low = rl;
            low.rlim_cur = 0;
            setrlimit(RLIMIT_NOFILE, &low);
        }
        if (is == 16 || is == 18)
            inter::ff = &ff;
        Outcome o = file(in, out);
        inter::ff = nullptr;
        if (drop && seteuid(0))
            _exit(3);
        if (nofile)
            setrlimit(RLIMIT_NOFILE, &rl);
        if (fifo >= 0)
            close(fifo);
        if ((is == 16 || is == 18) && ff.in_faults == 0)
        { // the input is not read or sized in this way
            c.label("fault not reached");
            continue;
        }
        auto after = fs_::listing(d);
        if (fifo < 0)
            VP_REQUIRE(fds() == open0, "input %s, output %s: file descriptors changed", in_names[is], out_names[os]);
        if (in_ok && out_ok)
        {
            good++;
            VP_REQUIRE(o == RETURNED, "input %s, output %s: the call %s", in_names[is], out_names[os], oname[o]);
            correct(out, t, out_names[os]);
            continue;
        }
        bad++;
        unsigned allowed = !in_ok ? in_allowed : bit(INVALID);
        if (!in_ok && !out_ok)
            allowed |= bit(INVALID);
        VP_REQUIRE(allowed >> o & 1, "input %s, output %s: the call %s, expected %s", in_names[is], out_names[os], oname[o],
                   allowed == bit(INVALID) ? "invalid_argument" : allowed == bit(RUNTIME) ? "runtime_error" : "invalid_argument or runtime_error");
        for (auto &x : after)
            VP_REQUIRE(before.count(x.first), "input %s, output %s: the failed call created %s", in_names[is], out_names[os], x.first.substr(0, 40).c_str());
        for (auto &x : before)
            VP_REQUIRE(after.count(x.first) && after[x.first] == x.second, "input %s, output %s: the failed call changed %s", in_names[is], out_names[os], x.first.c_str());
        // the process is still usable
        if (s.chance(1, 2))
        {
            fs_::put(d + "/again", t);
            o = file(d + "/again", d + "/again.out");
            VP_REQUIRE(o == RETURNED, "after the failed call a valid one %s", oname[o]);
            correct(d + "/again.out", t, "after a failed call");
        }
    }
    c.nontrivial(bad > 0);
}
VP_PART(c08_file, c08_file, 80000, 1500000, 120, 0, 4096, "1-4 file transforms over states of input and output path; non-trivial: an unusable path occurs");

// ------------------------------------------------------------------ C09
static Bytes io_text(Src &s, Ctx &c, size_t maxn)
{
    Bytes t = gen::text(s, maxn, &c);
    if (s.chance(1, 4))
    { // lengths next to the sizes of stream buffers
        static const size_t z[] = {1, 8, 4080, 4088, 4089, 4096, 4104, 8184, 8192, 12280, 65528, 65536};
        size_t n = z[s.range(0, 11)] + s.range(0, 2);
        if (n > maxn)
            n = maxn;
        t.resize(n, s.byte());
    }
    gen::classify(t, c);
    return t;
}
// a byte offset among the first `lim`, edges often
static uint64_t offset(Src &s, uint64_t lim)
{
    if (lim == 0)
        return 0;
    switch (s.weighted({3, 2, 2, 1, 2}))
    {
    case 0: return s.range(0, lim - 1);
    case 1: return lim - 1 - std::min<uint64_t>(lim - 1, s.range(0, 9));
    case 2: return std::min<uint64_t>(lim - 1, s.range(0, 9));
    case 3: return std::min<uint64_t>(lim - 1, s.pick<uint64_t>({8, 4095, 4096, 4097, 8192, 12288, 65536}));
    default: return std::min<uint64_t>(lim - 1, 4096 * s.range(0, lim / 4096));
    }
}
static void c09_write(Src &s, Ctx &c)
{
    inter::lib_reset();
    Bytes t = io_text(s, c, s.chance(1, 8) ? 150000 : 10000);
    std::string d = fs_::fresh(), in = d + "/in", out = d + "/out";
    fs_::put(in, t);
    if (s.chance(1, 3))
        fs_::put(out, Bytes(s.range(0, 200), 'o'));
    inter::FileFault ff;
    ff.in_path = d + "/-";
    ff.out_path = out;
    uint64_t total = t.size() + 8;
    int kind = s.weighted({8, 2, 1});
    if (kind == 0)
    {
        ff.out_fail_at = offset(s, total);
        ff.out_short = s.chance(1, 2);
    }
    else if (kind == 1)
        ff.out_close_fail = true;
    else
        ff.out_fail_at = total + s.range(0, 3); // just enough space
    if (s.chance(1, 2))
        ff.out_chunk = s.chance(1, 2) ? 1 + s.range(0, 40) : 1 + s.range(0, 9000);
    c.note("fault %s at %ld of %lu, buffer %lu", kind == 1 ? "on close" : "writing", (long)ff.out_fail_at, (unsigned long)total, (unsigned long)ff.out_chunk);
    inter::ff = &ff;
    Outcome o = file(in, out);
    inter::ff = nullptr;
    if (!ff.opens)
    {
        c.label("output is not written through a stream that can be replaced");
        return;
    }
    c.label(kind == 0 ? "fault while writing" : kind == 1 ? "fault on close" : "no fault");
    if (kind == 0)
        c.label(ff.out_fail_at < 8 ? "in the rank" : ff.out_fail_at + 4096 >= (int64_t)total ? "in the last buffer" : "in the middle");
    c.nontrivial(ff.faults > 0);
    c.key(ff.out_fail_at * 7 + kind + ff.out_chunk * 1000003);
    if (o == RETURNED)
    {
        VP_REQUIRE(ff.faults == 0, "the call returned although %s (byte %ld of %lu)", kind == 1 ? "closing the output failed" : "writing failed", (long)ff.out_fail_at, (unsigned long)total);
        correct(out, t, "returned");
    }
    else
    {
        VP_REQUIRE(o != NOT_STD, "the call %s", oname[o]);
        VP_REQUIRE(ff.faults > 0, "the call %s although nothing failed", oname[o]);
    }
}
VP_PART(c09_write, c09_write, 120000, 2000000, 120, 0, 4096, "output stream that fails at any byte offset (nothing or a part of the block written) or on close; non-trivial: the fault was reached");

static void c09_read(Src &s, Ctx &c)
{
    inter::lib_reset();
    Bytes t = io_text(s, c, s.chance(1, 8) ? 150000 : 12000);
    std::string d = fs_::fresh(), in = d + "/in", out = d + "/out";
    fs_::put(in, t);
    Bytes old(1 + s.range(0, 50), 'o');
    bool had = s.chance(1, 2);
    if (had)
        fs_::put(out, old);
    inter::FileFault ff;
    ff.in_path = in;
    ff.out_path = d + "/-";
    int kind = s.weighted({3, 4, 2, 1});
    bool must = true;
    switch (kind)
    {
    case 0: // a read fails
        ff.in_fail_read_at = s.range(0, 3);
        if (s.chance(1, 2))
            ff.in_chunk = 1 + s.range(0, 2000);
        break;
    case 1: // the file ends early
        ff.in_eof_at = offset(s, t.size());
        if (s.chance(1, 3))
            ff.in_chunk = 1 + s.range(0, 2000);
        break;
    case 2: // short reads only
        ff.in_chunk = 1 + (s.chance(1, 2) ? s.range(0, 20) : s.range(0, 5000));
        must = false;
        break;
    default:
        ff.in_seek_fail = true;
    }
    c.note("kind %d: failing read %ld, end at %ld of %zu, chunk %lu", kind, (long)ff.in_fail_read_at, (long)ff.in_eof_at, t.size(), (unsigned long)ff.in_chunk);
    inter::ff = &ff;
    Outcome o = file(in, out);
    inter::ff = nullptr;
    if (!ff.opens)
    {
        c.label("input is not read through a stream that can be replaced");
        return;
    }
    static const char *nm[] = {"read fails", "file ends early", "short reads", "seek fails"};
    c.label(nm[kind]);
    c.key(ff.in_fail_read_at * 3 + ff.in_eof_at * 7 + ff.in_chunk * 11 + kind);
    if ((kind == 0 || kind == 3) && ff.in_faults == 0)
    {
        c.label("fault not reached");
        must = false;
    }
    else
        c.nontrivial(true);
    if (o == RETURNED)
    {
        VP_REQUIRE(!must, "%s: the call returned", nm[kind]);
        correct(out, t, nm[kind]);
    }
    else
    {
        VP_REQUIRE(o != NOT_STD, "the call %s", oname[o]);
        VP_REQUIRE(must, "%s: the call %s although the input can be read", nm[kind], oname[o]);
        Bytes f;
        bool is = fs_::get(out, f);
        VP_REQUIRE(is == had && (!had || f == old), "%s: the output was touched", nm[kind]);
    }
}
VP_PART(c09_read, c09_read, 100000, 1500000, 120, 0, 4096, "input stream that fails, ends early or delivers little at a time; non-trivial: the fault was reached");

// real faults of the file system
static void c09_limit(Src &s, Ctx &c)
{
    inter::lib_reset();
    Alarm al(100);
    signal(SIGXFSZ, SIG_IGN);
    Bytes t = io_text(s, c, s.chance(1, 8) ? 200000 : 20000);
    std::string d = fs_::fresh(), in = d + "/in", out = d + "/out";
    fs_::put(in, t);
    uint64_t total = t.size() + 8;
    int kind = s.weighted({6, 2, 2});
    if (kind == 2)
    {
        c.label("/dev/full");
        c.key(t.size());
        c.nontrivial(true);
        // through a symbolic link: no way of writing can reach the device node itself
        if (symlink("/dev/full", out.c_str())) fail("harness: symlink");
        Outcome o = file(in, out);
        struct stat sb;
        if (o == RETURNED && lstat(out.c_str(), &sb) == 0 && S_ISREG(sb.st_mode))
        {
            c.label("the link was replaced by a file");
            correct(out, t, "link replaced");
            return;
        }
        VP_REQUIRE(o != RETURNED, "the call returned although the device is full (%lu bytes)", (unsigned long)total);
        VP_REQUIRE(o != NOT_STD, "the call %s", oname[o]);
        return;
    }
    uint64_t lim = kind == 0 ? offset(s, total) : total + s.range(0, 2);
    if (s.chance(1, 3))
        fs_::put(out, Bytes(s.range(0, total + 30), 'o'));
    c.note("limit %lu of %lu bytes", (unsigned long)lim, (unsigned long)total);
    struct rlimit rl, old;
    getrlimit(RLIMIT_FSIZE, &old);
    rl = old;
    rl.rlim_cur = lim;
    setrlimit(RLIMIT_FSIZE, &rl);
    Outcome o = file(in, out);
    setrlimit(RLIMIT_FSIZE, &old);
    c.label(kind == 0 ? "file size limit" : "limit that suffices");
    c.key(lim * 31 + kind);
    c.nontrivial(kind == 0);
    VP_REQUIRE(o != NOT_STD, "the call %s", oname[o]);
    if (kind == 0)
        VP_REQUIRE(o != RETURNED, "the call returned although only %lu of %lu bytes could be written", (unsigned long)lim, (unsigned long)total);
    else
    {
        VP_REQUIRE(o == RETURNED, "the call %s although the output fits", oname[o]);
        correct(out, t, "limit that suffices");
    }
}
VP_PART(c09_limit, c09_limit, 80000, 1200000, 120, 0, 4096, "file size limits at any offset and /dev/full; non-trivial: the output does not fit");

static void c09_pipe(Src &s, Ctx &c)
{
    inter::lib_reset();
    Alarm al(100);
    signal(SIGPIPE, SIG_IGN);
    Bytes t;
    if (s.chance(1, 3))
        t = gen::text(s, 30000, &c);
    else
    {
        Prng r(s.u64());
        t.resize(90000 + s.range(0, 100000));
        uint64_t k = 1 + s.range(0, 255);
        for (auto &x : t)
            x = r.below(k);
        c.key(t.size());
        c.note("random text of %zu bytes", t.size());
    }
    std::string d = fs_::fresh(), in = d + "/in", out = d + "/p", got = d + "/got";
    fs_::put(in, t);
    if (mkfifo(out.c_str(), 0600)) fail("harness: mkfifo");
    uint64_t total = t.size() + 8;
    bool all = s.chance(1, 3);
    uint64_t take = all ? total + 10 : s.chance(1, 3) ? s.range(0, 10) : s.range(0, total - 1);
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0)
    {
        c.label("no process");
        return;
    }
    if (p == 0)
    {
        alarm(100);
        int f = open(out.c_str(), O_RDONLY), g = open(got.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        static char b[65536];
        uint64_t n = 0;
        while (n < take)
        {
            ssize_t k = read(f, b, std::min<uint64_t>(sizeof b, take - n));
            if (k <= 0)
                break;
            if (write(g, b, k) != k)
                _exit(2);
            n += k;
        }
        _exit(0);
    }
    Outcome o = file(in, out);
    if (o != RETURNED)
        kill(p, SIGKILL); // it may still wait for a writer
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        ;
    VP_REQUIRE(o != NOT_STD, "the call %s", oname[o]);
    c.note("reader takes %lu of %lu bytes", (unsigned long)take, (unsigned long)total);
    if (all)
    {
        c.label("reader takes everything");
        if (o == RETURNED) // a special file may also be refused
        {
            Bytes f;
            VP_REQUIRE(fs_::get(got, f), "harness: no copy");
            std::string e = fs_::check_file(t, f);
            VP_REQUIRE(e.empty(), "through a pipe: %s", e.c_str());
        }
    }
    else if (take + 65536 + 8192 < total)
    {
        c.label("reader leaves early");
        c.nontrivial(true);
        VP_REQUIRE(o != RETURNED, "the call returned although the reader took %lu of %lu bytes and left", (unsigned long)take, (unsigned long)total);
    }
    else
        c.label("remainder fits the pipe");
}
VP_PART(c09_pipe, c09_pipe, 1200, 20000, 120, 0, 4096, "output into a pipe whose reader leaves after any number of bytes; non-trivial: more was left than a pipe holds");

static void c09_text(Src &s, Ctx &c)
{
    inter::lib_reset();
    Prng r(s.u64());
    Bytes t(200000 + s.range(0, 300000));
    uint64_t k = 1 + s.range(0, 255);
    for (auto &x : t)
        x = r.below(k);
    c.note("n=%zu", t.size());
    c.key(t.size());
    std::string d = fs_::fresh(), in = d + "/in", out = d + "/out";
    fs_::put(in, t);
    inter::led_reset();
    inter::fail_min = t.size();
    inter::fail_at = 1;
    inter::track = true;
    Outcome o = file(in, out);
    inter::track = false;
    uint64_t hit = inter::failed;
    inter::led_reset();
    if (!hit)
    {
        c.label("no block of the size of the text was requested");
        VP_REQUIRE(o == RETURNED, "the call %s", oname[o]);
        correct(out, t, "returned");
        return;
    }
    c.nontrivial(true);
    VP_REQUIRE(o != RETURNED, "the call returned although the memory for the text was refused");
    VP_REQUIRE(o != NOT_STD, "the call %s", oname[o]);
    VP_REQUIRE(access(out.c_str(), F_OK) != 0, "an output file was created although the text could not be read");
}
VP_PART(c09_text, c09_text, 1500, 20000, 120, 0, 4096, "the first block of at least the text's size is refused; non-trivial: such a block was requested");

// any allocation fails: never a normal return with a wrong result
static void c09_alloc(Src &s, Ctx &c)
{
    inter::lib_reset();
    if (!s.chance(1, 4))
        inter::ht_size = 1 + s.range(0, 50);
    inter::hb_size = s.chance(1, 2) ? 0 : 32 + s.range(0, 500);
    int w = s.weighted({4, 1, 1, 1, 1});
    static const uint64_t WM[5] = {0, 1ull << 31, 1ull << 39, 1ull << 47, 1ull << 55};
    inter::sa_raise = WM[w];
    Bytes t = gen::text(s, 6000, &c);
    gen::classify(t, c);
    std::string d = fs_::fresh(), in = d + "/in", out = d + "/out";
    fs_::put(in, t);
    uint64_t at = 1 + (s.chance(1, 2) ? s.range(0, 30) : s.range(0, 400));
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0)
    {
        c.label("no process");
        return;
    }
    if (p == 0)
    { // 0 returned and right, 1 returned and wrong, 2 threw, 3 not reached
        alarm(60);
        struct rlimit cl = {30, 30};
        setrlimit(RLIMIT_CPU, &cl);
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 2);
        inter::led_reset();
        inter::fail_at = at;
        inter::track = true;
        bool threw = false;
        try
        {
            flbwt::bwt_file(in.c_str(), out.c_str());
        }
        catch (std::exception &)
        {
            threw = true;
        }
        inter::track = false;
        if (!inter::failed)
            _exit(3);
        if (threw)
            _exit(2);
        Bytes f;
        bool ok = fs_::get(out, f) && fs_::check_file(t, f).empty();
        _exit(ok ? 0 : 1);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        ;
    c.note("allocation %lu refused", (unsigned long)at);
    c.key(at);
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 99;
    c.label(rc == 0 ? "returned, correct" : rc == 2 ? "threw" : rc == 3 ? "not reached" : rc == 1 ? "wrong" : "process ended");
    c.nontrivial(rc != 3);
    VP_REQUIRE(rc != 1, "allocation %lu was refused, the call returned and the output is wrong", (unsigned long)at);
}
VP_PART(c09_alloc, c09_alloc, 12000, 200000, 120, 0, 4096, "the k-th allocation of the call is refused: the call may throw or end the process, but not return with wrong output; non-trivial: the allocation was reached");

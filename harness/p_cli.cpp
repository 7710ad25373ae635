// C21: the example program, run as a process in a scratch directory.
#include "files.hpp"
#include "inter.hpp"
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
using namespace vp;
using sut::Bytes;

struct Run
{
    int status = -1;   // exit status, or 128 + signal
    Bytes out, err;
    bool ran = false;
};
struct Limits
{
    bool fsize = false;
    uint64_t fsize_at = 0;
    bool ignore_xfsz = true;
    int close_fd = -1;
    bool stdout_full = false;
};
static Run run(const std::string &dir, const std::vector<std::string> &args, const Limits &l)
{
    Run r;
    const char *exe = getenv("VP_CLI");
    VP_REQUIRE(exe, "harness: VP_CLI is not set");
    std::string o = vp::scratch() + "/stdout", e = vp::scratch() + "/stderr";
    std::vector<char *> av;
    std::string a0 = "bwt";
    av.push_back((char *)a0.c_str());
    for (auto &a : args)
        av.push_back((char *)a.c_str());
    av.push_back(nullptr);
    fflush(nullptr);
    pid_t p = fork();
    VP_REQUIRE(p >= 0, "harness: fork");
    if (p == 0)
    {
        int fo = open(l.stdout_full ? "/dev/full" : o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), fe = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), fi = open("/dev/null", O_RDONLY);
        dup2(fi, 0);
        dup2(fo, 1);
        dup2(fe, 2);
        for (int i = 3; i < 64; i++)
            close(i);
        if (chdir(dir.c_str()) != 0)
            _exit(120);
        signal(SIGPIPE, SIG_IGN);
        alarm(100);
        struct rlimit cl = {60, 60};
        setrlimit(RLIMIT_CPU, &cl);
        if (l.close_fd >= 0)
            close(l.close_fd);
        if (l.fsize)
        {
            signal(SIGXFSZ, l.ignore_xfsz ? SIG_IGN : SIG_DFL);
            struct rlimit rl = {l.fsize_at, l.fsize_at};
            setrlimit(RLIMIT_FSIZE, &rl);
        }
        execv(exe, av.data());
        _exit(121);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        ;
    r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    VP_REQUIRE(!(WIFEXITED(st) && (r.status == 120 || r.status == 121)), "harness: the program could not be started");
    fs_::get(o, r.out);
    fs_::get(e, r.err);
    r.ran = true;
    return r;
}
static std::string fname(Src &s)
{
    switch (s.weighted({4, 1, 1, 1, 1, 1}))
    {
    case 0: return std::string(1, 'a' + s.range(0, 25));
    case 1: return "with space";
    case 2: return "-x";
    case 3: return "--help";
    case 4: return "\xc3\xa4\xe2\x82\xac.txt";
    default: return std::string(1 + s.range(0, 254), 'n');
    }
}
static void c21_args(Src &s, Ctx &c)
{
    inter::lib_reset();
    std::string d = fs_::fresh();
    Bytes t = gen::text(s, 300, nullptr);
    fs_::put(d + "/in", t);
    fs_::put(d + "/out", Bytes(3, 'o'));
    size_t n = s.pick<size_t>({0, 1, 3, 4, 5, 10});
    if (s.chance(1, 20))
        n = 200;
    std::vector<std::string> a;
    for (size_t i = 0; i < n; i++)
        switch (s.weighted({3, 3, 2, 1, 1}))
        {
        case 0: a.push_back("in"); break;
        case 1: a.push_back("out"); break;
        case 2: a.push_back(fname(s)); break;
        case 3: a.push_back(""); break;
        default: a.push_back("new");
        }
    c.label("arguments: " + std::to_string(n));
    std::string all;
    for (auto &x : a)
        all += " '" + x.substr(0, 20) + "'";
    c.note("%zu arguments:%s", n, all.substr(0, 300).c_str());
    c.key(all.data(), all.size());
    c.nontrivial(true);
    auto before = fs_::listing(d);
    Run r = run(d, a, Limits());
    VP_REQUIRE(r.status != 0, "%zu arguments: exit status 0", n);
    VP_REQUIRE(!r.out.empty() || !r.err.empty(), "%zu arguments: no usage was printed", n);
    VP_REQUIRE(r.status < 128 || r.status == 255, "%zu arguments: the program was ended by signal %d", n, r.status - 128);
    auto after = fs_::listing(d);
    VP_REQUIRE(before == after, "%zu arguments: files were touched", n);
}
VP_PART(c21_args, c21_args, 12000, 60000, 200, 0, 0, "any number of arguments but two; non-trivial: always");

static void c21_run(Src &s, Ctx &c)
{
    inter::lib_reset();
    std::string d = fs_::fresh();
    Bytes t = gen::text(s, s.chance(1, 10) ? 100000 : 3000, &c);
    if (s.chance(1, 5))
        t.resize(s.pick<size_t>({4087, 4088, 4089, 4096, 8184, 65536}), 'z');
    gen::classify(t, c);
    uint64_t total = t.size() + 8;
    std::string in = fname(s), out = s.chance(1, 10) ? in : fname(s);
    bool abs = s.chance(1, 4);
    size_t is = s.weighted({10, 1, 1, 1, 1}), os = s.weighted({6, 4, 1, 1, 1, 1, 1});
    static const char *inm[] = {"file", "missing", "directory", "empty", "dangling symlink"};
    static const char *onm[] = {"new", "existing", "in a missing directory", "directory", "/dev/full", "symlink loop", "empty path"};
    std::string ip = d + "/" + in, op = d + "/" + out;
    bool same = in == out;
    bool ok = true;
    switch (is)
    {
    case 0: fs_::put(ip, t); break;
    case 1: ok = false; break;
    case 2: mkdir(ip.c_str(), 0700), ok = false; break;
    case 3: fs_::put(ip, Bytes()), ok = false; break;
    default: ok = symlink("nothing", ip.c_str()) != 0 && false;
    }
    bool in_ok = ok;
    std::string ia = abs ? ip : in, oa = abs ? op : out;
    Bytes old(1 + s.range(0, 9000), 'o');
    bool had = false;
    switch (os)
    {
    case 0: break;
    case 1:
        if (!same)
            fs_::put(op, old), had = true;
        break;
    case 2: oa = "none/" + out, ok = false; break;
    case 3:
        if (!same)
            mkdir(op.c_str(), 0700), ok = false;
        break;
    case 4:
        // a link, so that no way of writing can reach the device node itself
        if (!same)
            ok = symlink("/dev/full", op.c_str()) != 0 && false;
        break;
    case 5:
        if (!same)
            ok = symlink(out.c_str(), op.c_str()) != 0 && false;
        break;
    default: oa = "", ok = false;
    }
    Limits l;
    if (s.chance(1, 3))
    {
        l.fsize = true;
        l.ignore_xfsz = !s.chance(1, 4);
        switch (s.weighted({3, 2, 2, 2}))
        {
        case 0: l.fsize_at = s.range(0, total - 1); break;
        case 1: l.fsize_at = total - 1 - std::min<uint64_t>(total - 1, s.range(0, 9)); break;
        case 2: l.fsize_at = std::min<uint64_t>(total - 1, s.range(0, 9)); break;
        default: l.fsize_at = total + s.range(0, 1);
        }
        if (l.fsize_at < total)
            ok = false;
    }
    if (s.chance(1, 12))
        l.close_fd = s.range(0, 2);
    if (s.chance(1, 12))
        l.stdout_full = true;
    c.label(std::string("input ") + inm[is]);
    c.label(std::string("output ") + onm[os]);
    if (l.fsize)
        c.label(l.fsize_at < total ? "limit too small" : "limit that suffices");
    c.note("input %s, output %s%s, limit %ld of %lu bytes", inm[is], onm[os], same ? " (same name)" : "", l.fsize ? (long)l.fsize_at : -1L, (unsigned long)total);
    c.key(is * 100 + os * 10 + l.fsize);
    c.nontrivial(!ok || t.size() > 2);
    // a closed descriptor 0..2 is taken by the input or output file, and
    // messages of an ending process could then go into it
    auto before = fs_::listing(d);
    Run r = run(d, {ia, oa}, l);
    auto after = fs_::listing(d);
    struct stat sb;
    if (os == 4 && !same && lstat(op.c_str(), &sb) == 0 && S_ISREG(sb.st_mode))
    {
        c.label("the link was replaced by a file");
        return;
    }
    if (ok)
    {
        VP_REQUIRE(r.status == 0, "input %s, output %s: exit status %d", inm[is], onm[os], r.status);
        Bytes f;
        VP_REQUIRE(fs_::get(op, f), "exit status 0, but there is no output");
        std::string e = fs_::check_file(t, f);
        VP_REQUIRE(e.empty(), "exit status 0, but %s", e.c_str());
    }
    else
        VP_REQUIRE(r.status != 0, "input %s, output %s%s: exit status 0", inm[is], onm[os], l.fsize && l.fsize_at < total ? " limited in size" : "");
    bool ended = l.fsize && !l.ignore_xfsz && l.fsize_at < total; // by the signal, a temporary file may stay
    for (auto &x : after)
        VP_REQUIRE(ended || before.count(x.first) || x.first == out, "stray file %s", x.first.substr(0, 30).c_str());
    for (auto &x : before)
    {
        bool may = x.first == out && in_ok; // an unusable input leaves the output alone
        VP_REQUIRE(after.count(x.first) && (may || after[x.first] == x.second), "file %s was changed", x.first.substr(0, 30).c_str());
    }
    if (!in_ok && !same)
        VP_REQUIRE(before == after, "files were touched although the input is unusable");
}
VP_PART(c21_run, c21_run, 50000, 600000, 200, 0, 0, "two arguments: states of input and output path, size limits, closed descriptors; non-trivial: a failure is due or the text has more than two bytes");

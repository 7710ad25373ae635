// C22: a call has no effect beyond its result.  C23: stack use.
#include "files.hpp"
#include "inter.hpp"
#include <fenv.h>
#include <iostream>
#include <locale.h>
#include <new>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
using namespace vp;
using sut::Bytes;

static const uint64_t WIDTH_MIN[5] = {0, 1ull << 31, 1ull << 39, 1ull << 47, 1ull << 55};

// ------------------------------------------------------------------ C22
typedef std::vector<std::pair<std::string, std::string>> State;
extern char **environ;
static std::string num(uint64_t x)
{
    return std::to_string(x);
}
static State state()
{
    State s;
    char b[4096];
    s.push_back({"the working directory", getcwd(b, sizeof b) ? b : "?"});
    mode_t m = umask(0);
    umask(m);
    s.push_back({"the file creation mask", num(m)});
    std::string e;
    for (char **p = environ; *p; p++)
        e += std::string(*p) + "\n";
    s.push_back({"the environment", e});
    s.push_back({"the locale", setlocale(LC_ALL, nullptr)});
    s.push_back({"the global C++ locale", std::locale().name()});
    for (int i = 1; i <= 64; i++)
    {
        struct sigaction a;
        if (i == SIGKILL || i == SIGSTOP || sigaction(i, nullptr, &a) != 0)
            continue;
        s.push_back({"the action of signal " + num(i), num((uint64_t)a.sa_handler) + " " + num(a.sa_flags)});
    }
    sigset_t set;
    sigemptyset(&set);
    pthread_sigmask(SIG_BLOCK, nullptr, &set);
    e.clear();
    for (int i = 1; i <= 64; i++)
        e += sigismember(&set, i) == 1 ? '1' : '0';
    s.push_back({"the signal mask", e});
    s.push_back({"the rounding mode", num(fegetround())});
    s.push_back({"the floating point traps", num(fegetexcept())});
    for (int i = 0; i < RLIMIT_NLIMITS; i++)
    {
        struct rlimit l;
        if (getrlimit((__rlimit_resource)i, &l) == 0)
            s.push_back({"resource limit " + num(i), num(l.rlim_cur) + " " + num(l.rlim_max)});
    }
    struct itimerval t;
    getitimer(ITIMER_REAL, &t);
    s.push_back({"the alarm timer", num(t.it_value.tv_sec || t.it_value.tv_usec || t.it_interval.tv_sec)});
    getitimer(ITIMER_VIRTUAL, &t);
    s.push_back({"the virtual timer", num(t.it_value.tv_sec || t.it_value.tv_usec || t.it_interval.tv_sec)});
    s.push_back({"the priority", num(getpriority(PRIO_PROCESS, 0) + 100)});
    int n = 0;
    if (DIR *D = opendir("/proc/self/task"))
    {
        while (readdir(D))
            n++;
        closedir(D);
    }
    s.push_back({"the number of threads", num(n)});
    s.push_back({"the number of open descriptors", num(fs_::open_fds())});
    s.push_back({"the terminate handler", num((uint64_t)std::get_terminate())});
    s.push_back({"the new handler", num((uint64_t)std::get_new_handler())});
    s.push_back({"the format of std::cout", num(std::cout.flags()) + " " + num(std::cout.precision()) + " " + num(std::cout.rdstate()) + " " + num(std::cout.exceptions()) + " " + num((uint64_t)std::cout.rdbuf())});
    s.push_back({"the format of std::cerr", num(std::cerr.flags()) + " " + num(std::cerr.precision()) + " " + num(std::cerr.rdstate()) + " " + num((uint64_t)std::cerr.rdbuf())});
    for (int i = 0; i < 3; i++)
        s.push_back({"the flags of descriptor " + num(i), num(fcntl(i, F_GETFL)) + " " + num(fcntl(i, F_GETFD))});
    s.push_back({"the position in standard input", num(lseek(0, 0, SEEK_CUR))});
    int st;
    s.push_back({"child processes", num(waitpid(-1, &st, WNOHANG) == -1 && errno == ECHILD ? 0 : 1)});
    struct sigaltstack_
    {
    };
    stack_t ss;
    sigaltstack(nullptr, &ss);
    s.push_back({"the alternate signal stack", num((uint64_t)ss.ss_sp) + " " + num(ss.ss_flags)});
    return s;
}
struct Std
{ // the standard streams lead to files of the case
    int old[3], mine[3];
    Std(const std::string &d)
    {
        std::cout.flush();
        std::cerr.flush();
        fflush(stdout);
        fflush(stderr);
        for (int i = 0; i < 3; i++)
        {
            old[i] = fcntl(i, F_DUPFD_CLOEXEC, 100);
            mine[i] = open((d + "/std" + num(i)).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
            if (i == 0)
            {
                (void)!write(mine[0], "0123456789\n0123456789\n", 22);
                lseek(mine[0], 5, SEEK_SET);
            }
            dup2(mine[i], i);
        }
    }
    std::string printed()
    {
        std::cout.flush();
        std::clog.flush();
        fflush(stdout);
        fflush(stderr);
        for (int i = 1; i < 3; i++)
        {
            char b[200];
            ssize_t k = pread(mine[i], b, sizeof b, 0);
            if (k > 0)
                return std::string(b, k);
        }
        return "";
    }
    ~Std()
    {
        for (int i = 0; i < 3; i++)
        {
            if (old[i] >= 0)
                dup2(old[i], i);
            else
                close(i);
            close(old[i]);
            close(mine[i]);
        }
    }
};
static void on_signal(int) {}
struct Process
{ // a state of the process that is not the usual one
    struct sigaction old[65];
    sigset_t mask;
    struct rlimit lim;
    std::string about;
    Process(Src &s)
    {
        pthread_sigmask(SIG_BLOCK, nullptr, &mask);
        getrlimit(RLIMIT_NOFILE, &lim);
        static const int SIGS[8] = {SIGPIPE, SIGXFSZ, SIGINT, SIGTERM, SIGHUP, SIGUSR1, SIGALRM, SIGCHLD};
        for (int i : SIGS)
            sigaction(i, nullptr, &old[i]);
        if (s.chance(1, 3))
            return;
        for (int i : SIGS)
        {
            int k = s.weighted({3, 2, 1, 1});
            if (k == 0)
                continue;
            if (k == 3)
            {
                sigset_t one;
                sigemptyset(&one);
                sigaddset(&one, i);
                pthread_sigmask(SIG_BLOCK, &one, nullptr);
            }
            struct sigaction a;
            memset(&a, 0, sizeof a);
            a.sa_handler = k == 1 ? SIG_IGN : on_signal;
            if (k == 2)
                a.sa_flags = SA_RESTART;
            sigaction(i, &a, nullptr);
            about += " " + num(i) + (k == 1 ? " ignored" : k == 2 ? " handled" : " blocked");
        }
        if (s.chance(1, 3))
        {
            struct rlimit l = lim;
            l.rlim_cur = std::min<rlim_t>(l.rlim_cur, s.chance(1, 2) ? 256 : 4096);
            setrlimit(RLIMIT_NOFILE, &l);
        }
        if (s.chance(1, 3))
        {
            struct itimerval t = {{1000, 0}, {1000, 0}};
            setitimer(ITIMER_VIRTUAL, &t, nullptr);
        }
    }
    ~Process()
    {
        static const int SIGS[8] = {SIGPIPE, SIGXFSZ, SIGINT, SIGTERM, SIGHUP, SIGUSR1, SIGALRM, SIGCHLD};
        for (int i : SIGS)
            sigaction(i, &old[i], nullptr);
        pthread_sigmask(SIG_SETMASK, &mask, nullptr);
        setrlimit(RLIMIT_NOFILE, &lim);
        struct itimerval t = {{0, 0}, {0, 0}};
        setitimer(ITIMER_VIRTUAL, &t, nullptr);
    }
};
struct Held
{
    sut::Result r;
    uint64_t last;
    Bytes rows, text;
};
static void c22_calls(Src &s, Ctx &c)
{
    inter::lib_reset();
    std::string d = fs_::fresh();
    for (const char *x : {"/cwd", "/tmp", "/home", "/data"})
        mkdir((d + x).c_str(), 0700);
    static bool once;
    if (!once)
    {
        once = true;
        setenv("TMPDIR", (d + "/tmp").c_str(), 1);
        setenv("HOME", (d + "/home").c_str(), 1);
    }
    VP_REQUIRE(chdir((d + "/cwd").c_str()) == 0, "harness: chdir");
    mode_t um = s.pick<int>({022, 0, 077, 027});
    umask(um);
    int rm = s.pick<int>({FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO});
    Std std_(d);
    Process process(s);
    if (!process.about.empty())
        c.note("signals:%s", process.about.c_str()), c.label("signals set");
    unsigned seed = s.u64();
    std::vector<Held> held;
    Bytes file_text = gen::text(s, 3000, &c);
    fs_::put(d + "/data/in", file_text);
    fs_::put(d + "/data/empty", nullptr, 0);
    size_t steps = 1 + s.range(0, 4);
    std::string what;
    int ok = 0;
    struct Rounding
    {
        ~Rounding()
        {
            fesetround(FE_TONEAREST);
            umask(022);
            (void)!chdir("/");
        }
    } restore;
    for (size_t k = 0; k < steps; k++)
    {
        inter::ht_size = s.chance(1, 2) ? 0 : 1 + s.range(0, 300);
        inter::sa_raise = WIDTH_MIN[s.weighted({6, 1, 1, 1, 1})];
        int kind = s.weighted({4, 2, 4, 1, 1, 1, 1, 1});
        Bytes t;
        uint8_t *p = nullptr;
        if (kind < 2)
        {
            t = gen::text(s, kind ? 300 : 5000, nullptr);
            p = sut::dup(t);
        }
        std::string in = d + "/data/in", out = d + "/data/out";
        bool rel = s.chance(1, 2);
        if (rel)
            in = "../data/in", out = "../data/out";
        // what happens in the C library on first use does not count
        srand(seed + k);
        int r1 = rand();
        srandom(seed + k);
        srand48(seed + k);
        double r2 = drand48();
        srand(seed + k);
        srand48(seed + k);
        fesetround(rm);
        State a = state();
        bool threw = false;
        void *res = nullptr;
        try
        {
            switch (kind)
            {
            case 0: what = "a text kept", res = flbwt::bwt_string(p, t.size(), false); break;
            case 1: what = "a text handed over", res = flbwt::bwt_string(p, t.size(), true); break;
            case 2: what = "a file", flbwt::bwt_file(in.c_str(), out.c_str()); break;
            case 3: what = "a missing file", flbwt::bwt_file((in + ".missing").c_str(), out.c_str()); break;
            case 4: what = "a file to a directory", flbwt::bwt_file(in.c_str(), rel ? "../data" : (d + "/data").c_str()); break;
            case 5: what = "an empty file", flbwt::bwt_file(rel ? "../data/empty" : (d + "/data/empty").c_str(), out.c_str()); break;
            case 6: what = "a directory", flbwt::bwt_file(rel ? ".." : d.c_str(), out.c_str()); break;
            default: what = "an empty text", res = flbwt::bwt_string((uint8_t *)"", 0, false); break;
            }
        }
        catch (std::exception &)
        {
            threw = true;
        }
        State b = state();
        fesetround(FE_TONEAREST);
        double q2 = drand48();
        int q1 = rand();
        inter::lib_reset();
        c.note("%s%s%s", what.c_str(), rel && kind > 1 && kind < 7 ? ", relative paths" : "", threw ? ": rejected" : "");
        c.label(what);
        ok += !threw;
        for (size_t i = 0; i < a.size(); i++)
            VP_REQUIRE(a[i] == b[i], "transforming %s changed %s from \"%s\" to \"%s\"", what.c_str(), a[i].first.c_str(), a[i].second.c_str(), i < b.size() ? b[i].second.c_str() : "?");
        VP_REQUIRE(q1 == r1 && q2 == r2, "transforming %s disturbed the caller's random numbers", what.c_str());
        std::string pr = std_.printed();
        VP_REQUIRE(pr.empty(), "transforming %s printed \"%s\"", what.c_str(), pr.c_str());
        for (const char *x : {"/cwd", "/tmp", "/home"})
        {
            auto l = fs_::listing(d + x);
            VP_REQUIRE(l.empty(), "transforming %s left %s in %s", what.c_str(), l.begin()->first.c_str(), x);
        }
        auto l = fs_::listing(d + "/data");
        l.erase("in"), l.erase("empty"), l.erase("out");
        VP_REQUIRE(l.empty(), "transforming %s left the file %s", what.c_str(), l.begin()->first.c_str());
        if (kind == 0)
        {
            VP_REQUIRE(memcmp(p, t.data(), t.size()) == 0, "the caller's text was modified");
            free(p);
        }
        if (res)
        {
            Held h;
            h.r = sut::Result((flbwt::BWT_result *)res);
            h.last = h.r.r->last;
            VP_REQUIRE(h.last <= t.size(), "rank %lu is larger than the length %zu", (unsigned long)h.last, t.size());
            h.rows.assign(h.r.r->BWT, h.r.r->BWT + t.size() + 1);
            h.text = t;
            held.push_back(std::move(h));
        }
        // earlier results belong to the caller
        for (size_t i = 0; i < held.size(); i++)
        {
            VP_REQUIRE(held[i].r.r->last == held[i].last, "a later call changed the rank of an earlier result from %lu to %lu", (unsigned long)held[i].last, (unsigned long)held[i].r.r->last);
            held[i].rows[held[i].last] = held[i].r.r->BWT[held[i].last];
            VP_REQUIRE(memcmp(held[i].rows.data(), held[i].r.r->BWT, held[i].rows.size()) == 0, "a later call changed the rows of an earlier result");
        }
        if (!held.empty() && s.chance(1, 4))
            held.erase(held.begin() + s.range(0, held.size() - 1));
        c.key(t.data(), t.size());
        c.key(kind * 2 + rel);
    }
    c.nontrivial(ok > 0);
}
VP_PART(c22_calls, c22_calls, 20000, 400000, 120, 0, 4096, "1-5 calls, state of the process and the standard streams compared around each of them; non-trivial: at least one successful transform");

// ------------------------------------------------------------------ C23
static const size_t STACK = 32 << 20;
static uint8_t *stack_mem;
struct Job
{
    const Bytes *t;
    bool file, owned;
    std::string in, out;
    sut::Result r;
    std::string err;
};
static void *body(void *a)
{
    Job *j = (Job *)a;
    try
    {
        if (j->file)
            flbwt::bwt_file(j->in.c_str(), j->out.c_str());
        else
        {
            uint8_t *p = sut::dup(*j->t);
            j->r = sut::Result(flbwt::bwt_string(p, j->t->size(), j->owned));
            if (!j->owned)
                free(p);
        }
    }
    catch (std::exception &e)
    {
        j->err = e.what();
    }
    return nullptr;
}
// bytes of a fresh stack that a call touches
static size_t stack_use(Job &j)
{
    size_t pg = 4096;
    if (!stack_mem)
    {
        stack_mem = (uint8_t *)mmap(nullptr, STACK + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        VP_REQUIRE(stack_mem != MAP_FAILED, "harness: mmap");
        mprotect(stack_mem, pg, PROT_NONE);
        madvise(stack_mem, STACK + pg, MADV_NOHUGEPAGE);
    }
    madvise(stack_mem + pg, STACK, MADV_DONTNEED);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, stack_mem + pg, STACK);
    pthread_t th;
    VP_REQUIRE(pthread_create(&th, &at, body, &j) == 0, "harness: pthread_create");
    pthread_join(th, nullptr);
    pthread_attr_destroy(&at);
    std::vector<unsigned char> v(STACK / pg);
    VP_REQUIRE(mincore(stack_mem + pg, STACK, v.data()) == 0, "harness: mincore");
    size_t i = 0;
    while (i < v.size() && !(v[i] & 1))
        i++;
    return STACK - i * pg;
}
// what is no growth: buffers of a fixed size, of which a short text touches a part
static const size_t ALLOW = 640 << 10;
static void c23_stack(Src &s, Ctx &c)
{
    inter::lib_reset();
    size_t big = s.weighted({12, 4, 1});
    Bytes t = gen::text(s, big == 0 ? 20000 : big == 1 ? 300000 : 3000000, &c);
    size_t more = s.weighted({16, 8, 8, 1});
    if (more == 3)
    { // very many different pieces
        size_t k = 300000 + s.range(0, s.chance(1, 8) ? 3000000 : 700000), n = t.size() + k;
        unsigned a = s.pick<unsigned>({256, 64, 20, 5, 250});
        vp::Prng r(s.u64());
        while (t.size() < n)
            t.push_back((uint8_t)r.below(a));
        c.label("many pieces");
    }
    else if (more == 1)
    { // a long run somewhere
        size_t at = s.range(0, t.size()), k = 200000 + s.range(0, s.chance(1, 8) ? 3000000 : 500000);
        t.insert(t.begin() + at, k, s.chance(1, 2) && at ? t[at - 1] : (uint8_t)s.range(0, 255));
        c.label("long run");
    }
    else if (more == 2 && !t.empty())
    { // the same again and again, and broken off
        size_t n = 200000 + s.range(0, s.chance(1, 8) ? 3000000 : 500000), l = t.size();
        if (l < n)
        {
            t.resize(n);
            for (size_t i = l; i < n; i++)
                t[i] = t[i - l];
            c.label("repeated");
        }
    }
    c.nontrivial(gen::classify(t, c));
    if (s.chance(1, 2))
        inter::ht_size = s.chance(1, 3) ? 1 + s.range(0, 5) : 1 + s.range(0, 2000);
    if (inter::ht_size && t.size() > 30000)
        inter::ht_size = 0;
    inter::sa_raise = WIDTH_MIN[s.weighted({3, 1, 1, 1, 1})];
    Job j;
    j.t = &t;
    j.file = s.chance(1, 4);
    j.owned = s.chance(1, 2);
    if (j.file)
    {
        std::string d = fs_::fresh();
        j.in = d + "/in", j.out = d + "/out";
        fs_::put(j.in, t);
    }
    // what a short text takes in the same way
    Bytes small;
    for (int i = 0; i < 60; i++)
        small.push_back("badcabaadbca"[i * 7 % 12]);
    Job k = Job();
    k.t = &small;
    k.file = j.file;
    k.owned = j.owned;
    if (k.file)
    {
        k.in = j.in + "s", k.out = j.out + "s";
        fs_::put(k.in, small);
    }
    size_t u0 = stack_use(k), u = stack_use(j);
    inter::lib_reset();
    VP_REQUIRE(k.err.empty(), "exception: %s", k.err.c_str());
    if (getenv("VP_MEASURE"))
        fprintf(stderr, "M %zu %zu\n", t.size(), u);
    VP_REQUIRE(j.err.empty(), "exception: %s", j.err.c_str());
    c.note("%zu bytes of stack for %zu bytes of text", u, t.size());
    c.label(u <= 32768 ? "up to 32 kB" : u <= 65536 ? "up to 64 kB" : "more than 64 kB");
    VP_REQUIRE(u <= u0 + ALLOW, "%zu bytes of stack are used for a text of %zu bytes, %zu for one of %zu bytes", u, t.size(), u0, small.size());
    VP_REQUIRE(u <= 4 << 20, "%zu bytes of stack are used for a text of %zu bytes", u, t.size());
}
VP_PART(c23_stack, c23_stack, 6000, 100000, 300, 0, 0, "structured texts up to three million bytes, each width, in a thread whose stack is measured; non-trivial: at least two S* substrings");

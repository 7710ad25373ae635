#include "vp.hpp"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <map>
#include <set>
#include <algorithm>
#include <exception>
#include <typeinfo>
#include <unordered_set>

using namespace vp;

std::vector<Part> &vp::parts()
{
    static std::vector<Part> v;
    return v;
}
static std::string g_outdir;
static uint64_t g_user_seed = 1;
static bool g_thorough;
uint64_t vp::run_seed() { return g_user_seed; }
bool vp::thorough() { return g_thorough; }
const std::string &vp::scratch()
{
    static std::string d;
    static pid_t owner;
    if (owner != getpid())
    {
        std::string base = g_outdir.empty() ? std::string("/tmp") : g_outdir;
        d = base + "/s" + std::to_string(getpid());
        mkdir(d.c_str(), 0700);
        owner = getpid();
    }
    return d;
}

void vp::fail(const char *fmt, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Fail{buf};
}

Src::Src(uint64_t seed, uint64_t cn, uint8_t *r, size_t c, volatile uint64_t *rl)
    : replay(false), rng(mix64(seed ^ mix64(cn + 0x1234567))), case_no(cn), rec(r), cap(c), reclen(rl)
{
    if (reclen)
        *reclen = 0;
}
Src::Src(const uint8_t *d, size_t len) : replay(true), rng(0), data(d), n(len) {}

void Src::put(uint8_t b)
{
    if (rec && pos < cap)
        rec[pos] = b;
    pos++;
    if (reclen)
        *reclen = pos;
}
uint8_t Src::byte()
{
    if (replay)
    {
        uint8_t b = pos < n ? data[pos] : 0;
        pos++;
        return b;
    }
    uint8_t b = (uint8_t)(rng.next() >> 33);
    put(b);
    return b;
}
uint64_t Src::u64()
{
    uint64_t x = 0;
    for (int i = 0; i < 8; i++)
        x |= (uint64_t)byte() << (8 * i);
    return x;
}
uint64_t Src::range(uint64_t lo, uint64_t hi)
{
    if (hi <= lo)
        return lo;
    uint64_t span = hi - lo; // inclusive
    int nb = 1;
    while (nb < 8 && (span >> (8 * nb)) != 0)
        nb++;
    // one spare byte keeps the modulo bias small for odd spans
    if (nb < 8 && (span & (span + 1)) != 0 && span > 16)
        nb++;
    uint64_t x = 0;
    for (int i = 0; i < nb; i++)
        x |= (uint64_t)byte() << (8 * i);
    if (span == UINT64_MAX)
        return x;
    return lo + x % (span + 1);
}
size_t Src::weighted(std::initializer_list<unsigned> w)
{
    uint64_t tot = 0;
    for (unsigned x : w)
        tot += x;
    uint64_t r = range(0, tot - 1);
    size_t i = 0;
    for (unsigned x : w)
    {
        if (r < x)
            return i;
        r -= x;
        i++;
    }
    return 0;
}
uint64_t Src::index(uint64_t limit)
{
    uint64_t v;
    if (replay)
        v = u64();
    else
    {
        v = case_no;
        for (int i = 0; i < 8; i++)
            put((uint8_t)(v >> (8 * i)));
    }
    return limit ? v % limit : v;
}

// ---------------------------------------------------------------- context
static std::map<std::string, uint64_t> *g_labels;
void Ctx::label(const std::string &l)
{
    if (g_labels)
        (*g_labels)[l]++;
    if (verbose)
    {
        notes += "[" + l + "] ";
    }
}
void Ctx::key(const void *p, size_t len)
{
    uint64_t h = 1469598103934665603ull ^ len;
    const uint8_t *b = (const uint8_t *)p;
    size_t step = len > 4096 ? len / 4096 : 1;
    for (size_t i = 0; i < len; i += step)
        h = (h ^ b[i]) * 1099511628211ull;
    key(h);
}
void Ctx::note(const char *fmt, ...)
{
    if (!wants_notes && !verbose)
        return;
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (notes.size() < 6000)
        notes += std::string(buf) + "; ";
}

// ---------------------------------------------------------------- libFuzzer
#ifdef VP_LIBFUZZER
static const Part *fuzz_part()
{
    static const Part *p = nullptr;
    if (!p)
    {
        const char *nm = getenv("VP_PART");
        for (size_t i = 0; i < parts().size(); i++)
            if (!nm || !strcmp(parts()[i].name, nm))
            {
                p = &parts()[i];
                break;
            }
        if (!p)
            abort();
    }
    return p;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    Src s(data, size);
    Ctx c;
    try
    {
        fuzz_part()->run(s, c);
    }
    catch (Fail &f)
    {
        fprintf(stderr, "VP-FAIL: %s\n", f.msg.c_str());
        fflush(stderr);
        __builtin_trap();
    }
    return 0;
}
#else

// ---------------------------------------------------------------- runner
enum
{
    EX_OK = 0,
    EX_FAIL = 10,
    EX_CPU = 77,
    EX_SAN = 99
};
static const size_t REC_CAP = 4u << 20;

struct Shm
{
    volatile uint64_t case_no;
    volatile uint64_t done; // cases completed
    volatile uint64_t reclen;
    volatile uint64_t running;
    char msg[4096];
    uint8_t rec[REC_CAP];
};
static Shm *new_shm()
{
    void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        exit(2);
    }
    return (Shm *)p;
}

static Shm *g_me;
static const Part *g_part;
static uint64_t g_seed = 1;

static void on_prof(int)
{
    snprintf(g_me->msg, sizeof g_me->msg, "no result after %d s of CPU time", g_part->cpu_limit_s);
    _exit(EX_CPU);
}
static void set_cpu(int s)
{
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &it, nullptr);
}
static void child_setup()
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    static char stack[65536];
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = stack;
    ss.ss_size = sizeof stack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_prof;
    sa.sa_flags = SA_ONSTACK;
    sigaction(SIGPROF, &sa, nullptr);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__) && !defined(VP_SAN)
    if (g_part->data_limit_mb)
    {
        rl.rlim_cur = rl.rlim_max = g_part->data_limit_mb << 20;
        setrlimit(RLIMIT_DATA, &rl);
    }
#endif
}

// runs one case; returns EX_OK or EX_FAIL
static int run_case(Src &s, Ctx &c)
{
    set_cpu(g_part->cpu_limit_s);
    int rc = EX_OK;
    try
    {
        g_part->run(s, c);
    }
    catch (Fail &f)
    {
        snprintf(g_me->msg, sizeof g_me->msg, "%s", f.msg.c_str());
        rc = EX_FAIL;
    }
    catch (std::exception &e)
    {
        snprintf(g_me->msg, sizeof g_me->msg, "unexpected exception %s: %s", typeid(e).name(), e.what());
        rc = EX_FAIL;
    }
    set_cpu(0);
    return rc;
}

static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static std::string describe_status(int st, Shm *m)
{
    char b[256];
    if (WIFSIGNALED(st))
    {
        snprintf(b, sizeof b, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        return b;
    }
    int e = WEXITSTATUS(st);
    if (e == EX_FAIL || e == EX_CPU)
        return m->msg;
    if (e == EX_SAN)
        return "sanitizer report";
    snprintf(b, sizeof b, "unexpected exit with status %d", e);
    return b;
}

struct Outcome
{
    bool failed = false;
    bool inconclusive = false;
    int st = 0;
    std::string what;
    std::string kind;
    uint64_t used = 0;
};
static std::string kind_of(int st)
{
    if (WIFSIGNALED(st))
        return "crash";
    int e = WEXITSTATUS(st);
    if (e == EX_FAIL)
        return "oracle";
    if (e == EX_CPU)
        return "cpu";
    if (e == EX_SAN)
        return "sanitizer";
    return "exit";
}

// run in a forked child: f() returns the exit code
template <class F> static Outcome in_child(Shm *m, F f, const char *errlog = nullptr)
{
    m->msg[0] = 0;
    m->reclen = 0;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0)
    {
        g_me = m;
        child_setup();
        if (errlog)
        {
            if (!freopen(errlog, "w", stderr))
                _exit(3);
        }
        int rc = f();
        fflush(nullptr);
        _exit(rc);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        ;
    Outcome o;
    o.st = st;
    o.used = m->reclen;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        return o;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
    {
        o.inconclusive = true;
        o.what = "killed (memory?)";
        return o;
    }
    o.failed = true;
    o.what = describe_status(st, m);
    o.kind = kind_of(st);
    return o;
}

static Outcome replay_bytes(Shm *m, const std::vector<uint8_t> &d, bool verbose, std::string *notes, const char *errlog)
{
    std::string nf = g_outdir + "/notes.txt";
    if (notes)
        unlink(nf.c_str());
    Outcome o = in_child(
        m,
        [&]() {
            Src s(d.data(), d.size());
            Ctx c;
            c.verbose = verbose;
            int rc = run_case(s, c);
            m->reclen = s.used();
            if (notes)
            {
                FILE *f = fopen(nf.c_str(), "w");
                if (f)
                {
                    fputs(c.notes.c_str(), f);
                    fclose(f);
                }
            }
            return rc;
        },
        errlog);
    if (notes)
    {
        FILE *f = fopen(nf.c_str(), "r");
        if (f)
        {
            char b[8192];
            size_t k = fread(b, 1, sizeof b - 1, f);
            b[k] = 0;
            *notes = b;
            fclose(f);
        }
    }
    return o;
}

static Outcome replay_history(Shm *m, uint64_t w, uint64_t W, uint64_t upto)
{
    return in_child(
        m,
        [&]() {
            for (uint64_t i = w; i <= upto; i += W)
            {
                Src s(g_seed, i, m->rec, REC_CAP, &m->reclen);
                Ctx c;
                c.case_no = i;
                m->case_no = i;
                int rc = run_case(s, c);
                if (rc)
                    return rc;
            }
            return 0;
        },
        "/dev/null");
}

static std::vector<uint8_t> shrink(Shm *m, std::vector<uint8_t> d, const std::string &kind, double budget, int maxexec, int *nexec)
{
    double t0 = now();
    int ex = 0;
    auto fails = [&](const std::vector<uint8_t> &c) {
        if (ex >= maxexec || now() - t0 > budget)
            return false;
        ex++;
        Outcome o = replay_bytes(m, c, false, nullptr, "/dev/null");
        return o.failed && (o.kind == kind || (kind != "cpu" && o.kind != "cpu"));
    };
    auto trim = [&](std::vector<uint8_t> &c) {
        while (!c.empty() && c.back() == 0)
            c.pop_back();
    };
    {
        std::vector<uint8_t> c = d;
        trim(c);
        if (c.size() < d.size() && fails(c))
            d = c;
    }
    bool progress = true;
    while (progress && ex < maxexec && now() - t0 < budget)
    {
        progress = false;
        for (size_t len = d.size(); len >= 1; len /= 2)
        {
            for (size_t at = 0; at + len <= d.size();)
            {
                std::vector<uint8_t> c(d.begin(), d.begin() + at);
                c.insert(c.end(), d.begin() + at + len, d.end());
                if (fails(c))
                {
                    d = c;
                    progress = true;
                    continue;
                }
                bool allz = true;
                for (size_t i = at; i < at + len; i++)
                    allz = allz && d[i] == 0;
                if (!allz)
                {
                    c = d;
                    std::fill(c.begin() + at, c.begin() + at + len, 0);
                    if (fails(c))
                    {
                        d = c;
                        progress = true;
                    }
                }
                at += len;
                if (ex >= maxexec || now() - t0 > budget)
                    break;
            }
            if (len == 1)
                break;
        }
        for (size_t i = 0; i < d.size() && ex < maxexec && now() - t0 < budget; i++)
        {
            uint8_t lo = 0, hi = d[i]; // binary search for a smaller failing byte
            while (lo < hi)
            {
                uint8_t mid = lo + (hi - lo) / 2;
                std::vector<uint8_t> c = d;
                c[i] = mid;
                if (fails(c))
                {
                    d = c;
                    hi = mid;
                    progress = true;
                }
                else
                    lo = mid + 1;
            }
        }
        std::vector<uint8_t> c = d;
        trim(c);
        if (c.size() < d.size() && fails(c))
            d = c;
    }
    *nexec = ex;
    return d;
}

static std::string jesc(const std::string &s)
{
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if (c == '\n')
            r += "\\n";
        else if (c < 32 || c >= 127)
        {
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += c;
    }
    return r + "\"";
}
static std::string tail_of(const std::string &path)
{
    FILE *f = fopen(path.c_str(), "r");
    if (!f)
        return "";
    std::string s;
    char b[4096];
    size_t k;
    while ((k = fread(b, 1, sizeof b, f)) > 0 && s.size() < 6000)
        s.append(b, k);
    fclose(f);
    if (s.size() > 3000)
        s.resize(3000);
    return s;
}

// the time for the part is over: what was explored so far counts
static std::vector<pid_t> *g_pids;
static volatile sig_atomic_t g_cut;
static void on_alarm(int)
{
    g_cut = 1;
    for (pid_t p : *g_pids)
        if (p > 0)
            kill(p, SIGKILL);
}

static int worker(Shm *m, uint64_t w, uint64_t W, uint64_t N, double deadline)
{
    std::map<std::string, uint64_t> labels;
    g_labels = &labels;
    std::unordered_set<uint64_t> keys;
    uint64_t nontriv = 0, ran = 0;
    std::vector<std::string> samples;
    bool stopped = false;
    for (uint64_t i = w; i < N; i += W)
    {
        if (now() > deadline)
        {
            stopped = true;
            break;
        }
        m->case_no = i;
        m->running = 1;
        Src s(g_seed, i, m->rec, REC_CAP, &m->reclen);
        Ctx c;
        c.case_no = i;
        c.wants_notes = samples.size() < 3 && (ran % 7 == 3 || N < 64);
        int rc = run_case(s, c);
        if (rc)
            return rc;
        m->running = 0;
        m->done = m->done + 1;
        ran++;
        if (c.nt)
        {
            nontriv++;
            if (keys.size() < (1u << 21))
                keys.insert(c.k);
            if (c.wants_notes && !c.notes.empty())
                samples.push_back(c.notes);
        }
    }
    std::string fn = g_outdir + "/w" + std::to_string(w);
    FILE *f = fopen((fn + ".txt").c_str(), "w");
    if (!f)
        return 3;
    fprintf(f, "ran %lu\nnontrivial %lu\nstopped %d\n", (unsigned long)ran, (unsigned long)nontriv, stopped ? 1 : 0);
    for (auto &l : labels)
        fprintf(f, "label %lu %s\n", (unsigned long)l.second, l.first.c_str());
    for (auto &x : samples)
        fprintf(f, "sample %s\n", jesc(x).c_str());
    fclose(f);
    f = fopen((fn + ".keys").c_str(), "wb");
    if (!f)
        return 3;
    for (uint64_t k : keys)
        fwrite(&k, 8, 1, f);
    fclose(f);
    return 0;
}

#ifdef VP_MSAN
extern "C" void __msan_scoped_disable_interceptor_checks(void);
#endif
int main(int argc, char **argv)
{
#ifdef VP_MSAN
    // the harness is not instrumented
    __msan_scoped_disable_interceptor_checks();
#endif
    std::string part, out, replay, replay_hist;
    uint64_t cases = 0, seed = 1;
    int W = 8;
    double budget = 600, hard = 0;
    bool list = false;
    std::string tier = "quick";
    double scale = 1;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--part") part = nx();
        else if (a == "--out") out = nx();
        else if (a == "--cases") cases = strtoull(nx().c_str(), 0, 0);
        else if (a == "--scale") scale = atof(nx().c_str());
        else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 0);
        else if (a == "--workers") W = atoi(nx().c_str());
        else if (a == "--budget") budget = atof(nx().c_str());
        else if (a == "--hard") hard = atof(nx().c_str());
        else if (a == "--replay") replay = nx();
        else if (a == "--history") replay_hist = nx();
        else if (a == "--tier") tier = nx();
        else if (a == "--list") list = true;
    }
    if (list)
    {
        for (auto &p : parts())
            printf("%s\t%lu\t%lu\t%s\n", p.name, (unsigned long)p.quick, (unsigned long)p.thorough, p.rule);
        return 0;
    }
    for (auto &p : parts())
        if (part == p.name)
            g_part = &p;
    g_user_seed = seed;
    g_thorough = tier == "thorough";
    if (!g_part || out.empty())
    {
        fprintf(stderr, "unknown part\n");
        return 2;
    }
    g_outdir = out;
    uint64_t ph = 0;
    for (char c : part)
        ph = ph * 131 + (unsigned char)c;
    g_seed = mix64(seed * 0x100000001b3ull + ph);
    Shm *m0 = new_shm();

    if (!replay.empty())
    {
        FILE *f = fopen(replay.c_str(), "rb");
        if (!f)
        {
            perror("replay");
            return 2;
        }
        std::vector<uint8_t> d;
        int ch;
        while ((ch = fgetc(f)) != EOF)
            d.push_back(ch);
        fclose(f);
        std::string notes;
        Outcome o = replay_bytes(m0, d, true, &notes, nullptr);
        printf("%s\n%s\n", notes.c_str(), o.failed ? ("FAIL: " + o.what).c_str() : o.inconclusive ? "INCONCLUSIVE" : "PASS");
        return o.failed ? 1 : 0;
    }
    if (!replay_hist.empty())
    {
        unsigned long w = 0, WW = 1, up = 0;
        sscanf(replay_hist.c_str(), "%lu/%lu/%lu", &w, &WW, &up);
        Outcome o = replay_history(m0, w, WW, up);
        printf("%s\n", o.failed ? ("FAIL: " + o.what).c_str() : "PASS");
        return o.failed ? 1 : 0;
    }

    uint64_t N = cases ? cases : (tier == "thorough" ? g_part->thorough : g_part->quick);
    if (!cases)
        N = (uint64_t)(N * scale + 0.5);
    if (N == 0)
        N = 1;
    if (g_part->workers)
        W = std::min(W, g_part->workers);
    if ((uint64_t)W > N)
        W = (int)N;
    double t0 = now(), deadline = t0 + budget;
    std::vector<Shm *> shm;
    std::vector<pid_t> pids;
    for (int w = 0; w < W; w++)
    {
        Shm *m = new_shm();
        shm.push_back(m);
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0)
        {
            g_me = m;
            child_setup();
            std::string el = out + "/w" + std::to_string(w) + ".err";
            if (!freopen(el.c_str(), "w", stderr))
                _exit(3);
            int rc = worker(m, w, W, N, deadline);
            fflush(nullptr);
            _exit(rc);
        }
        pids.push_back(p);
    }
    g_pids = &pids;
    if (hard > 0)
    {
        signal(SIGALRM, on_alarm);
        alarm((unsigned)hard + 1);
    }
    int left = W;
    int failw = -1, failst = 0;
    bool inconcl = false;
    std::string inconcl_why;
    while (left > 0)
    {
        int st;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0)
        {
            if (errno == EINTR)
                continue;
            break;
        }
        int w = -1;
        for (int i = 0; i < W; i++)
            if (pids[i] == p)
                w = i;
        if (w < 0)
            continue;
        left--;
        pids[w] = -1;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            continue;
        if ((WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) || (WIFEXITED(st) && WEXITSTATUS(st) == 3))
        {
            if (failw < 0 && !g_cut)
            {
                inconcl = true;
                inconcl_why = "worker " + std::to_string(w) + " killed at case " + std::to_string(shm[w]->case_no);
            }
            continue;
        }
        if (failw < 0)
        {
            failw = w;
            failst = st;
            for (int i = 0; i < W; i++)
                if (pids[i] > 0)
                    kill(pids[i], SIGKILL);
        }
    }
    alarm(0);
    double t_run = now() - t0;

    std::string js = "{\"part\":" + jesc(part) + ",\"rule\":" + jesc(g_part->rule) + ",\"requested\":" + std::to_string(N);
    int exitcode = 0;
    if (failw >= 0)
    {
        Shm *fm = shm[failw];
        uint64_t fc = fm->case_no;
        std::string what = describe_status(failst, fm);
        std::string kind = kind_of(failst);
        size_t rl = std::min<size_t>((size_t)fm->reclen, REC_CAP);
        std::vector<uint8_t> d(fm->rec, fm->rec + rl);
        bool truncated = fm->reclen > REC_CAP;
        std::string elog = tail_of(out + "/w" + std::to_string(failw) + ".err");
        bool single = false, slow = false;
        std::string mode, notes, what2 = what, file;
        if (!truncated)
        {
            int ok = 0, reps = kind == "cpu" ? 2 : 3;
            for (int i = 0; i < reps; i++)
            {
                double r0 = now();
                Outcome o = replay_bytes(m0, d, i == 0, i == 0 ? &notes : nullptr, i == 0 ? (out + "/final.err").c_str() : "/dev/null");
                ok += o.failed;
                if (i == 0 && o.failed && now() - r0 > 10)
                { // one confirmation is enough, and no search for a smaller case
                    slow = true;
                    what2 = o.what;
                    kind = o.kind;
                    reps = 1;
                }
            }
            single = ok == reps;
        }
        int nexec = 0;
        int hist_ok = 0, hist_n = 0;
        if (single)
        {
            mode = "choices";
            std::string el = out + "/final.err";
            if (!slow)
            {
                std::vector<uint8_t> small = kind == "cpu" ? d : shrink(m0, d, kind, 45, 4000, &nexec);
                int ok = 0;
                for (int i = 0; i < 3 && kind != "cpu"; i++)
                    ok += replay_bytes(m0, small, false, nullptr, "/dev/null").failed;
                if (kind != "cpu" && ok == 3)
                    d = small;
                notes.clear();
                Outcome o = replay_bytes(m0, d, true, &notes, el.c_str());
                if (o.failed)
                {
                    what2 = o.what;
                    kind = o.kind;
                }
            }
            std::string e2 = tail_of(el);
            if (!e2.empty())
                elog = e2;
            file = out + "/failure.choices";
            FILE *f = fopen(file.c_str(), "wb");
            fwrite(d.data(), 1, d.size(), f);
            fclose(f);
        }
        else
        {
            mode = "history";
            hist_n = kind == "cpu" ? 1 : 3;
            for (int i = 0; i < hist_n; i++)
                hist_ok += replay_history(m0, failw, W, fc).failed;
        }
        bool confirmed = single || hist_ok > 0;
        js += ",\"failed\":" + std::string(confirmed ? "true" : "false") + ",\"unreproduced\":" + (confirmed ? "false" : "true") + ",\"kind\":" + jesc(kind) + ",\"mode\":" + jesc(mode) +
              ",\"message\":" + jesc(what2) + ",\"first_message\":" + jesc(what) + ",\"case\":" + std::to_string(fc) +
              ",\"worker\":" + std::to_string(failw) + ",\"workers\":" + std::to_string(W) + ",\"history_reproduced\":" + std::to_string(hist_ok) +
              ",\"shrink_execs\":" + std::to_string(nexec) + ",\"choices_len\":" + std::to_string(d.size()) + ",\"notes\":" + jesc(notes) + ",\"log\":" + jesc(elog);
        exitcode = confirmed ? 1 : 0;
    }
    // merge statistics
    uint64_t ran = 0, nontriv = 0;
    bool stopped = g_cut;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    std::vector<uint64_t> keys;
    for (int w = 0; w < W; w++)
    {
        std::string fn = out + "/w" + std::to_string(w);
        FILE *f = fopen((fn + ".txt").c_str(), "r");
        if (!f)
        {
            ran += shm[w]->done;
            continue;
        }
        static char line[65536];
        while (fgets(line, sizeof line, f))
        {
            unsigned long x;
            size_t L = strlen(line);
            if (L && line[L - 1] == '\n')
                line[L - 1] = 0;
            if (sscanf(line, "ran %lu", &x) == 1)
                ran += x;
            else if (sscanf(line, "nontrivial %lu", &x) == 1)
                nontriv += x;
            else if (sscanf(line, "stopped %lu", &x) == 1)
                stopped = stopped || x;
            else if (!strncmp(line, "label ", 6))
            {
                char *e;
                unsigned long c = strtoul(line + 6, &e, 10);
                labels[e + 1] += c;
            }
            else if (!strncmp(line, "sample ", 7))
                samples.push_back(line + 7);
        }
        fclose(f);
        f = fopen((fn + ".keys").c_str(), "rb");
        if (f)
        {
            uint64_t k;
            while (fread(&k, 8, 1, f) == 1)
                keys.push_back(k);
            fclose(f);
        }
    }
    std::sort(keys.begin(), keys.end());
    keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
    js += ",\"ran\":" + std::to_string(ran) + ",\"nontrivial\":" + std::to_string(nontriv) + ",\"distinct\":" + std::to_string(keys.size()) +
          ",\"stopped_by_budget\":" + (stopped ? "true" : "false") + ",\"inconclusive\":" + (inconcl ? "true" : "false") +
          ",\"inconclusive_why\":" + jesc(inconcl_why) + ",\"wall_s\":" + std::to_string(t_run) + ",\"labels\":{";
    bool first = true;
    for (auto &l : labels)
    {
        js += (first ? "" : ",") + jesc(l.first) + ":" + std::to_string(l.second);
        first = false;
    }
    js += "},\"samples\":[";
    for (size_t i = 0; i < samples.size() && i < 6; i++)
        js += (i ? "," : "") + samples[i];
    js += "]}\n";
    FILE *f = fopen((out + "/result.json").c_str(), "w");
    if (!f)
        return 2;
    fputs(js.c_str(), f);
    fclose(f);
    return exitcode;
}
#endif

// C07: concurrent calls.  One unit, built plainly (results) and with
// ThreadSanitizer (races).
#include "files.hpp"
#include "inter.hpp"
#include <atomic>
#include <pthread.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace vp;
using sut::Bytes;

struct Job
{
    int kind; // 0 shared text, 1 own copy handed over, 2 own copy kept, 3 file
    size_t text;
};
struct Expect
{
    Bytes t;
    uint64_t last;
    Bytes rows;
    Bytes file;
};
static bool same(const Expect &e, const flbwt::BWT_result *r)
{
    if (!r || !r->BWT || r->last != e.last)
        return false;
    for (size_t i = 0; i <= e.t.size(); i++)
        if (i != e.last && r->BWT[i] != e.rows[i])
            return false;
    return true;
}
static void run(Src &s, Ctx &c, size_t maxn, size_t rounds)
{
    inter::lib_reset();
    // set before any thread starts, then only read
    if (!s.chance(1, 4))
        inter::ht_size = 1 + s.range(0, 400);
    static const uint64_t WM[5] = {0, 1ull << 31, 1ull << 39, 1ull << 47, 1ull << 55};
    int w = s.weighted({4, 1, 1, 1, 1});
    inter::sa_raise = WM[w];
    c.label("width class " + std::to_string(w));
    std::string d = fs_::fresh();
    size_t nt = 1 + s.range(1, 7), ntext = 1 + s.range(0, 3);
    std::vector<Expect> ex(ntext);
    size_t nontriv = 0;
    for (size_t i = 0; i < ntext; i++)
    {
        Expect &e = ex[i];
        e.t = gen::text(s, maxn, i ? nullptr : &c);
        nontriv += gen::classify(e.t, c);
        e.t.push_back(0);
        sut::Result r(flbwt::bwt_string(e.t.data(), e.t.size() - 1, false));
        e.t.pop_back();
        e.t.reserve(e.t.size() + 1);
        e.t.data()[e.t.size()] = 0;
        sut::check(e.t, r, false);
        e.last = r.r->last;
        e.rows.assign(r.r->BWT, r.r->BWT + e.t.size() + 1);
        e.file.resize(8);
        for (int k = 0; k < 8; k++)
            e.file[k] = e.last >> (56 - 8 * k);
        for (size_t k = 0; k <= e.t.size(); k++)
            if (k != e.last)
                e.file.push_back(e.rows[k]);
        fs_::put(d + "/in" + std::to_string(i), e.t);
    }
    std::vector<std::vector<Job>> jobs(nt);
    size_t per = 1 + s.range(0, 3);
    bool lone = s.chance(1, 3); // everybody works on the same text
    std::string what;
    for (auto &v : jobs)
        for (size_t k = 0; k < per; k++)
        {
            Job j;
            j.kind = s.weighted({3, 2, 2, 1});
            j.text = lone ? 0 : s.range(0, ntext - 1);
            c.label(j.kind == 0 ? "shared text" : j.kind == 1 ? "handed over" : j.kind == 2 ? "own copy" : "file");
            v.push_back(j);
        }
    c.label("threads: " + std::to_string(nt));
    c.note("%zu threads, %zu calls each, %zu rounds", nt, per, rounds);
    c.key(nt * 64 + per);
    c.nontrivial(nontriv > 0);
    std::atomic<int> bad(-1);
    std::atomic<int> badkind(0);
    for (size_t round = 0; round < rounds && bad < 0; round++)
    {
        pthread_barrier_t bar;
        pthread_barrier_init(&bar, nullptr, nt);
        std::vector<std::thread> th;
        for (size_t i = 0; i < nt; i++)
            th.emplace_back([&, i] {
                pthread_barrier_wait(&bar);
                for (size_t k = 0; k < jobs[i].size(); k++)
                {
                    const Job &j = jobs[i][k];
                    const Expect &e = ex[j.text];
                    int wrong = 0;
                    try
                    {
                        if (j.kind == 3)
                        {
                            std::string out = d + "/o" + std::to_string(i) + "_" + std::to_string(k);
                            flbwt::bwt_file((d + "/in" + std::to_string(j.text)).c_str(), out.c_str());
                            Bytes f;
                            wrong = !fs_::get(out, f) || f != e.file;
                        }
                        else
                        {
                            sut::Result r;
                            if (j.kind == 0)
                                r = sut::Result(flbwt::bwt_string((uint8_t *)e.t.data(), e.t.size(), false));
                            else
                            {
                                uint8_t *p = sut::dup(e.t);
                                r = sut::Result(flbwt::bwt_string(p, e.t.size(), j.kind == 1));
                                if (j.kind == 2)
                                    free(p);
                            }
                            wrong = !same(e, r.r);
                        }
                    }
                    catch (...)
                    {
                        wrong = 2;
                    }
                    if (wrong)
                    {
                        bad = i;
                        badkind = wrong * 10 + j.kind;
                    }
                }
            });
        for (auto &t : th)
            t.join();
        pthread_barrier_destroy(&bar);
    }
    VP_REQUIRE(bad < 0, "thread %d of %zu: %s differs from the call run alone", bad.load(), nt, badkind / 10 == 2 ? "exception, which" : badkind % 10 == 3 ? "output file" : "result");
}
static void c07_race(Src &s, Ctx &c) { run(s, c, s.chance(1, 10) ? 6000 : 800, 1); }
VP_PART(c07_race, c07_race, 5000, 120000, 300, 0, 0, "2-8 threads, 1-4 calls each, shared and own texts, files; non-trivial: a text has at least two S* substrings");
static void c07_stress(Src &s, Ctx &c) { run(s, c, s.chance(1, 10) ? 30000 : 2500, 12); }
VP_PART(c07_stress, c07_stress, 1500, 30000, 300, 4, 0, "the same without instrumentation, twelve rounds; non-trivial: a text has at least two S* substrings");

// The first calls a process makes are concurrent ones: every case is a fresh
// child of a process that never calls the library itself.
struct FirstJob
{
    int kind; // 0 shared, 1 handed over, 2 kept, 3 file, 4 invalid arguments
    size_t text;
    bool ok = false;
    sut::Result r;
    Bytes rows; // of a file
    uint64_t last = 0;
};
static int first_child(std::vector<Bytes> &texts, std::vector<std::vector<FirstJob>> &jobs, const std::string &d, std::string &err)
{
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, nullptr, jobs.size());
    std::vector<std::thread> th;
    for (size_t i = 0; i < jobs.size(); i++)
        th.emplace_back([&, i] {
            pthread_barrier_wait(&bar);
            for (size_t k = 0; k < jobs[i].size(); k++)
            {
                FirstJob &j = jobs[i][k];
                Bytes &t = texts[j.text];
                try
                {
                    if (j.kind == 3)
                        flbwt::bwt_file((d + "/in" + std::to_string(j.text)).c_str(), (d + "/o" + std::to_string(i) + "_" + std::to_string(k)).c_str());
                    else if (j.kind == 4)
                    {
                        try
                        {
                            j.r = sut::Result(flbwt::bwt_string(nullptr, 1, false));
                            continue;
                        }
                        catch (std::invalid_argument &)
                        {
                        }
                    }
                    else if (j.kind == 0)
                        j.r = sut::Result(flbwt::bwt_string(t.data(), t.size(), false));
                    else
                    {
                        uint8_t *p = sut::dup(t);
                        j.r = sut::Result(flbwt::bwt_string(p, t.size(), j.kind == 1));
                        if (j.kind == 2)
                            free(p);
                    }
                    j.ok = true;
                }
                catch (...)
                {
                }
            }
        });
    for (auto &t : th)
        t.join();
    // judged after the last thread has ended
    for (size_t i = 0; i < jobs.size(); i++)
        for (size_t k = 0; k < jobs[i].size(); k++)
        {
            FirstJob &j = jobs[i][k];
            Bytes &t = texts[j.text];
            std::string who = "thread " + std::to_string(i) + ", call " + std::to_string(k) + ": ";
            if (!j.ok)
            {
                err = who + (j.kind == 4 ? "a null text was not rejected with invalid_argument" : "exception");
                return 1;
            }
            if (j.kind == 4)
                continue;
            std::string m;
            if (j.kind == 3)
            {
                Bytes f;
                if (!fs_::get(d + "/o" + std::to_string(i) + "_" + std::to_string(k), f) || f.size() != t.size() + 8)
                    m = "output file has the wrong size";
                else
                {
                    uint64_t last = 0;
                    for (int b = 0; b < 8; b++)
                        last = last << 8 | f[b];
                    if (last > t.size())
                        m = "rank in the output file is too large";
                    else
                    {
                        Bytes rows(f.begin() + 8, f.end());
                        rows.insert(rows.begin() + last, 0);
                        m = ref::check_inverse(t.data(), t.size(), rows.data(), last, false);
                    }
                }
            }
            else if (!j.r.r || !j.r.r->BWT || j.r.r->last > t.size())
                m = "no result";
            else
                m = ref::check_inverse(t.data(), t.size(), j.r.r->BWT, j.r.r->last, false);
            if (!m.empty())
            {
                err = who + m;
                return 1;
            }
        }
    return 0;
}
static void c07_first(Src &s, Ctx &c)
{
    inter::lib_reset();
    if (!s.chance(1, 3))
        inter::ht_size = 1 + s.range(0, 400);
    static const uint64_t WM[5] = {0, 1ull << 31, 1ull << 39, 1ull << 47, 1ull << 55};
    int w = s.weighted({4, 1, 1, 1, 1});
    inter::sa_raise = WM[w];
    c.label("width class " + std::to_string(w));
    std::string d = fs_::fresh();
    size_t nt = 2 + s.range(0, 6), ntext = 1 + s.range(0, 2);
    std::vector<Bytes> texts(ntext);
    bool nontriv = false;
    for (size_t i = 0; i < ntext; i++)
    {
        texts[i] = gen::text(s, s.chance(1, 10) ? 6000 : 700, i ? nullptr : &c);
        nontriv |= gen::classify(texts[i], c);
        texts[i].reserve(texts[i].size() + 1);
        texts[i].data()[texts[i].size()] = 0;
        fs_::put(d + "/in" + std::to_string(i), texts[i]);
    }
    std::vector<std::vector<FirstJob>> jobs(nt);
    bool lone = s.chance(1, 3);
    int only = s.chance(1, 2) ? (int)s.range(0, 3) : -1; // everybody does the same
    for (auto &v : jobs)
    {
        size_t per = 1 + s.range(0, 2);
        for (size_t k = 0; k < per; k++)
        {
            FirstJob j;
            j.kind = only >= 0 ? only : s.weighted({3, 2, 2, 2, 1});
            j.text = lone ? 0 : s.range(0, ntext - 1);
            v.push_back(std::move(j));
        }
    }
    c.label("threads: " + std::to_string(nt));
    c.note("%zu threads", nt);
    c.key(nt);
    c.nontrivial(nontriv);
    fflush(nullptr);
    pid_t p = fork();
    VP_REQUIRE(p >= 0, "harness: fork");
    if (p == 0)
    {
        std::string err;
        int r = 3;
        try
        {
            r = first_child(texts, jobs, d, err);
        }
        catch (...)
        {
        }
        if (r == 1)
            fs_::put(d + "/err", Bytes(err.begin(), err.end()));
        _exit(r);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        return;
    Bytes e;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1)
        fs_::get(d + "/err", e);
    if (!e.empty())
        fail("the first calls of a process: %.*s", (int)e.size(), (const char *)e.data());
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99)
        fail("the first calls of a process: data race");
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM || WTERMSIG(st) == SIGXCPU))
    {
        c.label("child ended from outside");
        return;
    }
    if (WIFSIGNALED(st))
        fail("the first calls of a process: crash (signal %d)", WTERMSIG(st));
    c.label("child gave no answer");
}
VP_PART(c07_first, c07_first, 3000, 60000, 300, 0, 0, "2-8 threads of a fresh process make its first calls; non-trivial: a text has at least two S* substrings");

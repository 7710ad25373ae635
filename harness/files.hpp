// Helpers for tests of the file interface.  Everything happens inside
// vp::scratch().
#pragma once
#include "sut.hpp"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

namespace fs_
{
using sut::Bytes;
inline void put(const std::string &p, const uint8_t *d, size_t n)
{
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    VP_REQUIRE(fd >= 0, "harness: cannot create %s", p.c_str());
    size_t done = 0;
    while (done < n)
    {
        ssize_t w = write(fd, d + done, n - done);
        if (w <= 0)
        {
            close(fd);
            vp::fail("harness: cannot write %s: %s", p.c_str(), strerror(errno));
        }
        done += w;
    }
    close(fd);
}
inline void put(const std::string &p, const Bytes &b) { put(p, b.data(), b.size()); }
inline bool get(const std::string &p, Bytes &b)
{
    int fd = open(p.c_str(), O_RDONLY | O_NONBLOCK);
    if (fd < 0)
        return false;
    struct stat st;
    fstat(fd, &st);
    b.resize(st.st_size);
    size_t done = 0;
    while (done < b.size())
    {
        ssize_t r = read(fd, b.data() + done, b.size() - done);
        if (r <= 0)
            break;
        done += r;
    }
    b.resize(done);
    close(fd);
    return true;
}
inline void wipe(const std::string &d)
{
    DIR *D = opendir(d.c_str());
    if (!D)
        return;
    while (struct dirent *e = readdir(D))
    {
        std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        std::string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
        {
            wipe(p);
            rmdir(p.c_str());
        }
        else
            unlink(p.c_str());
    }
    closedir(D);
}
// an empty directory for one case
inline std::string fresh()
{
    std::string d = vp::scratch() + "/c";
    if (mkdir(d.c_str(), 0700) != 0)
        wipe(d);
    return d;
}
inline int open_fds()
{
    int n = 0;
    DIR *D = opendir("/proc/self/fd");
    if (!D)
        return -1;
    while (readdir(D))
        n++;
    closedir(D);
    return n;
}
// name -> description and content
inline std::map<std::string, std::string> listing(const std::string &d)
{
    std::map<std::string, std::string> m;
    DIR *D = opendir(d.c_str());
    if (!D)
        return m;
    while (struct dirent *e = readdir(D))
    {
        std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        struct stat st;
        std::string p = d + "/" + n;
        if (lstat(p.c_str(), &st) != 0)
            continue;
        if (S_ISREG(st.st_mode))
        {
            Bytes b;
            get(p, b);
            m[n] = "f" + std::string(b.begin(), b.end());
        }
        else if (S_ISLNK(st.st_mode))
        {
            char t[512];
            ssize_t k = readlink(p.c_str(), t, sizeof t);
            m[n] = "l" + std::string(t, k > 0 ? k : 0);
        }
        else
            m[n] = S_ISDIR(st.st_mode) ? "d" : S_ISFIFO(st.st_mode) ? "p" : "o";
    }
    closedir(D);
    return m;
}
// is f a correct output for text t?
inline std::string check_file(const Bytes &t, const Bytes &f)
{
    if (f.size() != t.size() + 8)
        return "output has " + std::to_string(f.size()) + " bytes for " + std::to_string(t.size()) + " bytes of input";
    uint64_t last = 0;
    for (int i = 0; i < 8; i++)
        last = last << 8 | f[i];
    return ref::check_inverse(t.data(), t.size(), f.data() + 8, last, true);
}
// independent decoder, written without the other oracle: returns the text
inline bool decode(const Bytes &f, Bytes &t)
{
    if (f.size() < 8)
        return false;
    size_t n = f.size() - 8;
    uint64_t last = 0;
    for (int i = 0; i < 8; i++)
        last = last << 8 | f[i];
    if (last > n)
        return false;
    std::vector<int> L(n + 1);
    for (size_t i = 0, j = 8; i <= n; i++)
        L[i] = i == last ? -1 : f[j++];
    std::vector<std::vector<uint32_t>> where(257);
    for (size_t i = 0; i <= n; i++)
        where[L[i] + 1].push_back(i);
    std::vector<uint32_t> next(n + 1);
    size_t row = 0;
    for (int c = 0; c <= 256; c++)
        for (uint32_t w : where[c])
            next[row++] = w;
    t.clear();
    uint64_t r = last;
    for (size_t i = 0; i < n; i++)
    {
        r = next[r];
        if (L[r] < 0)
            return false;
        t.push_back(L[r]);
    }
    return true;
}
} // namespace fs_

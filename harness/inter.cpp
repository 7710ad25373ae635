// Interposition.  The executable is linked with -rdynamic, so definitions
// here win over those of the shared library under test and of libc.
#include "inter.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/stat.h>
#ifndef VP_PLAIN // retried with it when the internals were renamed
#include "hashtable.hpp"
#include "container.hpp"
#include "packed_array.hpp"
#endif

namespace inter
{
uint64_t resident()
{
    char b[200];
    int fd = open("/proc/self/statm", O_RDONLY);
    ssize_t k = fd < 0 ? 0 : read(fd, b, sizeof b - 1);
    if (fd >= 0)
        close(fd);
    b[k > 0 ? k : 0] = 0;
    unsigned long a = 0, r = 0;
    sscanf(b, "%lu %lu", &a, &r);
    return r * 4096;
}
uint64_t sub_raise;
Sorter sorter;
uint64_t ht_size, hb_size, sa_raise, n_ctor, n_sort, n_sais[5], seen_sa_max;
bwt_mock mock;
void lib_reset()
{
    ht_size = hb_size = sa_raise = sub_raise = 0;
    n_ctor = n_sort = seen_sa_max = 0;
    memset(n_sais, 0, sizeof n_sais);
    mock = nullptr;
}
int fill_mode;
uint8_t fill_byte;
uint64_t fill_seed;
bool track;
Ledger led;
uint64_t seq;
const void *watch;
uint64_t watch_seq, watch_live, peak_after;
uint64_t fail_at, fail_min, fail_count, failed;
bool arena, sparse_malloc;
uint64_t arena_peak;
FileFault *ff;
Virt *virt;
} // namespace inter
using namespace inter;

// dlsym is resolved once per symbol; a library without the symbol never gets here
template <class F> static F real(const char *name, F &slot)
{
    // threads may get here at the same time
    F f = __atomic_load_n(&slot, __ATOMIC_ACQUIRE);
    if (!f)
    {
        f = (F)dlsym(RTLD_NEXT, name);
        __atomic_store_n(&slot, f, __ATOMIC_RELEASE);
    }
    return f;
}

// --------------------------------------------------------------- library
#ifndef VP_PLAIN
template <class T> static auto set_hbsize(T *h, int) -> decltype(h->HBSIZE, void())
{
    h->HBSIZE = hb_size;
}
template <class T> static void set_hbsize(T *, long) {}
template <class T> static auto raise_sa(T *c, int) -> decltype(c->sa_max_value, void())
{
    if (c->sa_max_value < sa_raise)
        c->sa_max_value = sa_raise;
#ifndef VP_THREADS
    seen_sa_max = c->sa_max_value;
#endif
}
template <class T> static void raise_sa(T *, long) {}
template <class T> static auto raise_sub(T *c, int) -> decltype(c->num_of_substrings, void())
{
    if (c->num_of_substrings < sub_raise)
        c->num_of_substrings = sub_raise;
}
template <class T> static void raise_sub(T *, long) {}

#endif

typedef uint64_t U;
extern "C"
{
    void vp_ht_ctor(void *self, uint64_t size, uint64_t n) __asm__("_ZN5flbwt9HashTableC1Emm");
    void vp_ht_ctor(void *self, uint64_t size, uint64_t n)
    {
        static void (*r)(void *, uint64_t, uint64_t);
        __atomic_add_fetch(&n_ctor, 1, __ATOMIC_RELAXED);
        real("_ZN5flbwt9HashTableC1Emm", r)(self, ht_size ? ht_size : size, n);
#ifndef VP_PLAIN
        if (hb_size)
            set_hbsize((flbwt::HashTable *)self, 0);
#endif
    }
    void *vp_sort(uint8_t *T, void *c) __asm__("_ZN5flbwt16sort_LMS_stringsEPhPNS_9ContainerE");
    void *vp_sort(uint8_t *T, void *c)
    {
        static void *(*r)(uint8_t *, void *);
        void *res = real("_ZN5flbwt16sort_LMS_stringsEPhPNS_9ContainerE", r)(T, c);
#ifndef VP_THREADS
        n_sort++;
#endif
#ifndef VP_PLAIN
        raise_sa((flbwt::Container *)c, 0);
#endif
        return res;
    }
    void *vp_bwt_string(uint8_t *T, uint64_t n, bool f) __asm__("_ZN5flbwt10bwt_stringEPhmb");
    void *vp_bwt_string(uint8_t *T, uint64_t n, bool f)
    {
        if (mock)
            return mock(T, n, f);
        static void *(*r)(uint8_t *, uint64_t, bool);
        return real("_ZN5flbwt10bwt_stringEPhmb", r)(T, n, f);
    }
#ifndef VP_THREADS
    struct Depth
    {
        Depth(int w, U fs, U n, U k, int arrays, const void *a, const void *b, const void *c)
        {
            n_sais[w]++;
            if (!sub_raise)
                return;
            sorter.width = w;
            sorter.arrays = arrays;
            sorter.out[0] = a, sorter.out[1] = b, sorter.out[2] = c;
            sorter.fs = fs, sorter.n = n, sorter.k = k;
            throw Stop();
        }
    };
#ifndef VP_PLAIN
    void *vp_extract(uint8_t *T, uint64_t n) __asm__("_ZN5flbwt19extract_LMS_stringsEPhm");
    void *vp_extract(uint8_t *T, uint64_t n)
    {
        static void *(*r)(uint8_t *, uint64_t);
        sorter.extracted++;
        void *c = real("_ZN5flbwt19extract_LMS_stringsEPhm", r)(T, n);
        if (sub_raise)
            raise_sub((flbwt::Container *)c, 0);
        return c;
    }
    void *vp_create(uint8_t *T, uint64_t n, void *c) __asm__("_ZN5flbwt23create_shortened_stringEPhmPNS_9ContainerE");
    void *vp_create(uint8_t *T, uint64_t n, void *c)
    {
        if (sub_raise)
        {
            sorter.made++;
            return new flbwt::PackedArray(16, 8);
        }
        static void *(*r)(uint8_t *, uint64_t, void *);
        return real("_ZN5flbwt23create_shortened_stringEPhmPNS_9ContainerE", r)(T, n, c);
    }
#endif
    void vp_s32(const uint8_t *T, void *SA, U fs, U n, U k, uint8_t cs) __asm__("_ZN5flbwt10sais_32bitEPKhPimmmh");
    void vp_s32(const uint8_t *T, void *SA, U fs, U n, U k, uint8_t cs)
    {
        static decltype(&vp_s32) r;
        Depth d(0, fs, n, k, 1, SA, nullptr, nullptr);
        real("_ZN5flbwt10sais_32bitEPKhPimmmh", r)(T, SA, fs, n, k, cs);
    }
    void vp_s64(const uint8_t *T, void *SA, U fs, U n, U k, uint8_t cs) __asm__("_ZN5flbwt10sais_64bitEPKhPlmmmh");
    void vp_s64(const uint8_t *T, void *SA, U fs, U n, U k, uint8_t cs)
    {
        static decltype(&vp_s64) r;
        Depth d(4, fs, n, k, 1, SA, nullptr, nullptr);
        real("_ZN5flbwt10sais_64bitEPKhPlmmmh", r)(T, SA, fs, n, k, cs);
    }
    void vp_s40(const uint8_t *T, void *a, void *b, void *c, void *e, U fs, U n, U k, uint8_t cs) __asm__("_ZN5flbwt10sais_40bitEPKhPjPaS2_S3_mmmh");
    void vp_s40(const uint8_t *T, void *a, void *b, void *c, void *e, U fs, U n, U k, uint8_t cs)
    {
        static decltype(&vp_s40) r;
        Depth d(1, fs, n, k, 2, c, e, nullptr);
        real("_ZN5flbwt10sais_40bitEPKhPjPaS2_S3_mmmh", r)(T, a, b, c, e, fs, n, k, cs);
    }
    void vp_s48(const uint8_t *T, void *a, void *b, void *c, void *e, U fs, U n, U k, uint8_t cs) __asm__("_ZN5flbwt10sais_48bitEPKhPjPsS2_S3_mmmh");
    void vp_s48(const uint8_t *T, void *a, void *b, void *c, void *e, U fs, U n, U k, uint8_t cs)
    {
        static decltype(&vp_s48) r;
        Depth d(2, fs, n, k, 2, c, e, nullptr);
        real("_ZN5flbwt10sais_48bitEPKhPjPsS2_S3_mmmh", r)(T, a, b, c, e, fs, n, k, cs);
    }
    void vp_s56(const uint8_t *T, void *a, void *b, void *b2, void *c, void *c2, void *e, U fs, U n, U k, uint8_t cs) __asm__("_ZN5flbwt10sais_56bitEPKhPjPtPaS2_S3_S4_mmmh");
    void vp_s56(const uint8_t *T, void *a, void *b, void *b2, void *c, void *c2, void *e, U fs, U n, U k, uint8_t cs)
    {
        static decltype(&vp_s56) r;
        Depth d(3, fs, n, k, 3, c, c2, e);
        real("_ZN5flbwt10sais_56bitEPKhPjPtPaS2_S3_S4_mmmh", r)(T, a, b, b2, c, c2, e, fs, n, k, cs);
    }
#endif
}

namespace inter
{
Ms ms;
void ms_call()
{
    ms.r = vp_bwt_string(ms.T, ms.n, ms.owned);
}
} // namespace inter

// ------------------------------------------------------------- allocator
#ifdef VP_MALLOC
extern "C"
{
    void *__libc_malloc(size_t);
    void *__libc_calloc(size_t, size_t);
    void *__libc_realloc(void *, size_t);
    void __libc_free(void *);
}
namespace
{
struct Ent
{
    uintptr_t p;
    uint64_t size;
    uint64_t live; // 1 live, 0 released
    uint64_t freed;
    uint64_t alloc_seq, free_seq;
};
const size_t TAB = 1u << 20;
Ent *tab;
uint32_t *used;
size_t nused;

Ent *find(const void *p, bool make)
{
    if (!tab)
    {
        if (!make)
            return nullptr;
        tab = (Ent *)mmap(nullptr, TAB * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        used = (uint32_t *)mmap(nullptr, TAB * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    uint64_t h = (uintptr_t)p * 0x9e3779b97f4a7c15ull >> 44;
    for (size_t i = 0; i < TAB; i++)
    {
        Ent *e = &tab[(h + i) & (TAB - 1)];
        if (e->p == (uintptr_t)p)
            return e;
        if (!e->p)
        {
            if (!make || nused > TAB / 2)
                return nullptr;
            e->p = (uintptr_t)p;
            used[nused++] = (h + i) & (TAB - 1);
            return e;
        }
    }
    return nullptr;
}
void on_alloc(void *p, size_t n)
{
    Ent *e = find(p, true);
    if (!e)
    {
        led.overflow++;
        return;
    }
    e->size = n;
    e->live = 1;
    e->alloc_seq = ++seq;
    led.n_alloc++;
    led.live_blocks++;
    led.live_bytes += n;
    if (led.live_bytes > led.peak_bytes)
        led.peak_bytes = led.live_bytes;
    if (watch_seq && led.live_bytes > peak_after)
        peak_after = led.live_bytes;
}
void on_free(void *p)
{
    Ent *e = find(p, false);
    if (!e)
        return; // allocated before tracking started
    if (!e->live)
    {
        led.bad_free++;
        return;
    }
    e->live = 0;
    e->freed++;
    e->free_seq = ++seq;
    led.n_free++;
    led.live_blocks--;
    led.live_bytes -= e->size;
    if (p == watch && !watch_seq)
    {
        watch_seq = seq;
        watch_live = peak_after = led.live_bytes;
    }
}
void fill(void *p, size_t n, size_t from = 0)
{
    if (fill_mode == FILL_BYTE)
        memset((char *)p + from, fill_byte, n - from);
    else if (fill_mode == FILL_RANDOM)
    {
        uint64_t s = fill_seed += 0x9e3779b97f4a7c15ull;
        for (size_t i = from; i < n; i++)
        {
            s = s * 6364136223846793005ull + 1442695040888963407ull;
            ((uint8_t *)p)[i] = s >> 56;
        }
    }
}
bool should_fail(size_t n)
{
    if (!fail_at || !track || n < fail_min)
        return false;
    if (++fail_count == fail_at)
    {
        failed++;
        return true;
    }
    return false;
}
uint8_t *ar_base;
uint64_t ar_cap;

const int NSP = 8;
struct
{
    void *p;
    size_t n;
} sp[NSP];
} // namespace

namespace inter
{
uint64_t sparse_size(const void *p)
{
    for (int i = 0; i < NSP; i++)
        if (p && sp[i].p == p)
            return sp[i].n;
    return 0;
}
void led_reset()
{
    for (size_t i = 0; i < nused; i++)
        memset(&tab[used[i]], 0, sizeof(Ent));
    nused = 0;
    memset(&led, 0, sizeof led);
    seq = 0;
    watch = nullptr;
    watch_seq = watch_live = peak_after = 0;
    fail_at = fail_min = fail_count = failed = 0;
}
bool led_live(const void *p)
{
    Ent *e = find(p, false);
    return e && e->live;
}
uint64_t led_freed(const void *p)
{
    Ent *e = find(p, false);
    return e ? e->freed : 0;
}
uint64_t led_free_seq(const void *p)
{
    Ent *e = find(p, false);
    return e ? e->free_seq : 0;
}
uint64_t led_alloc_seq(const void *p)
{
    Ent *e = find(p, false);
    return e ? e->alloc_seq : 0;
}
void led_adopt(void *p, size_t n) { on_alloc(p, n); }
bool arena_init(uint64_t bytes)
{
    if (!ar_base)
    {
        void *p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED)
            return false;
        ar_base = (uint8_t *)p;
        ar_cap = bytes;
    }
    arena_peak = 0;
    return true;
}
void arena_done()
{
    if (ar_base)
        munmap(ar_base, ar_cap);
    ar_base = nullptr;
    arena = false;
}
} // namespace inter

extern "C"
{
    void *malloc(size_t n)
    {
        if (__builtin_expect(track, 0) && should_fail(n))
        {
            errno = ENOMEM;
            return nullptr;
        }
        if (sparse_malloc && n >= (1ull << 30))
            for (int i = 0; i < NSP; i++)
                if (!sp[i].p)
                {
                    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                    if (p == MAP_FAILED)
                    {
                        errno = ENOMEM;
                        return nullptr;
                    }
                    madvise(p, n, MADV_NOHUGEPAGE); // a few pages of it are touched
                    sp[i].p = p;
                    sp[i].n = n;
                    return p;
                }
        void *p = __libc_malloc(n);
        if (p && fill_mode)
            fill(p, malloc_usable_size(p));
        if (__builtin_expect(track, 0) && p)
            on_alloc(p, n);
        return p;
    }
    void *calloc(size_t a, size_t b)
    {
        if (__builtin_expect(track, 0) && should_fail(a * b))
        {
            errno = ENOMEM;
            return nullptr;
        }
        void *p = __libc_calloc(a, b);
        if (__builtin_expect(track, 0) && p)
            on_alloc(p, a * b);
        return p;
    }
    void free(void *p)
    {
        if (!p)
            return;
        if (ar_base && p == ar_base)
        {
            if (track)
                on_free(p);
            madvise(ar_base, ar_cap, MADV_DONTNEED);
            return;
        }
        for (int i = 0; i < NSP; i++)
            if (sp[i].p == p)
            {
                munmap(p, sp[i].n);
                sp[i].p = nullptr;
                return;
            }
        if (__builtin_expect(track, 0))
        {
            uint64_t b = led.bad_free;
            on_free(p);
            if (led.bad_free != b)
                return; // double release: recorded, do not corrupt the heap
        }
        if (fill_mode)
            fill(p, malloc_usable_size(p));
        __libc_free(p);
    }
    void *realloc(void *q, size_t n)
    {
        if (__builtin_expect(track, 0) && should_fail(n))
        {
            errno = ENOMEM;
            return nullptr;
        }
        if (arena && ar_base && (q == nullptr || q == ar_base))
        {
            if (n > ar_cap)
            {
                errno = ENOMEM;
                return nullptr;
            }
            if (n > arena_peak)
                arena_peak = n;
            if (track)
            {
                if (q)
                    on_free(q);
                on_alloc(ar_base, n);
            }
            return ar_base;
        }
        if (!q)
            return malloc(n);
        static unsigned re_count;
        if (fill_mode && (n <= 200000 || (++re_count & (n <= 2000000 ? 63 : 1023)) == 0))
        { // move often, so that stale pointers are noticed
            size_t old = malloc_usable_size(q);
            bool t = track;
            void *p = __libc_malloc(n);
            if (!p)
                return nullptr;
            fill(p, malloc_usable_size(p));
            memcpy(p, q, old < n ? old : n);
            fill(q, old);
            if (t)
                on_free(q);
            __libc_free(q);
            if (t)
                on_alloc(p, n);
            return p;
        }
        if (__builtin_expect(track, 0))
            on_free(q);
        void *p = __libc_realloc(q, n);
        if (__builtin_expect(track, 0) && p)
            on_alloc(p, n);
        return p;
    }
}
#endif

// ----------------------------------------------------------------- stdio
#ifdef VP_STDIO
namespace
{
struct Cookie
{
    int fd;
    bool out;
    uint64_t pos;
    bool dead;
};
ssize_t c_read(void *v, char *b, size_t n)
{
    Cookie *c = (Cookie *)v;
    uint64_t no = ff->reads++;
    if (ff->in_fail_read_at >= 0 && (int64_t)no >= ff->in_fail_read_at)
    {
        ff->in_faults++;
        ff->faults++;
        errno = EIO;
        return -1;
    }
    if (ff->in_chunk && n > ff->in_chunk)
        n = ff->in_chunk;
    if (ff->in_eof_at >= 0)
    {
        uint64_t left = (int64_t)c->pos < ff->in_eof_at ? ff->in_eof_at - c->pos : 0;
        if (n > left)
            n = left;
    }
    ssize_t k = read(c->fd, b, n);
    if (k > 0)
        c->pos += k;
    return k;
}
ssize_t c_write(void *v, const char *b, size_t n)
{
    Cookie *c = (Cookie *)v;
    ff->writes++;
    if (ff->out_fail_at >= 0 && c->pos + n > (uint64_t)ff->out_fail_at)
    {
        ff->faults++;
        c->dead = true;
        uint64_t k = (uint64_t)ff->out_fail_at > c->pos ? ff->out_fail_at - c->pos : 0;
        if (ff->out_short && k)
        {
            ssize_t w = write(c->fd, b, k);
            if (w > 0)
                c->pos += w;
            errno = ENOSPC;
            return w > 0 ? w : 0;
        }
        errno = ENOSPC;
        return 0;
    }
    size_t done = 0;
    while (done < n)
    {
        ssize_t w = write(c->fd, b + done, n - done);
        if (w <= 0)
            return done;
        done += w;
    }
    c->pos += n;
    return n;
}
int c_seek(void *v, off64_t *o, int wh)
{
    Cookie *c = (Cookie *)v;
    if (!c->out && ff->in_seek_fail)
    {
        ff->in_faults++;
        ff->faults++;
        errno = ESPIPE;
        return -1;
    }
    off_t r = lseek(c->fd, *o, wh);
    if (r < 0)
        return -1;
    c->pos = r;
    *o = r;
    return 0;
}
int c_close(void *v)
{
    Cookie *c = (Cookie *)v;
    ff->closes++;
    int r = close(c->fd);
    if (c->out && ff->out_close_fail)
    {
        ff->faults++;
        errno = EIO;
        r = -1;
    }
    __builtin_free(c);
    return r;
}
struct VCookie
{
    bool out;
    uint64_t pos;
};
ssize_t v_read(void *v, char *b, size_t n)
{
    VCookie *c = (VCookie *)v;
    if (c->out)
        return 0;
    uint64_t left = c->pos < virt->in_size ? virt->in_size - c->pos : 0;
    if (n > left)
        n = left;
    if (n <= 65536)
        memset(b, 0, n);
    c->pos += n;
    // what is copied out of a buffer takes real memory
    if ((virt->small_in += n) > (256ull << 20))
        _exit(3);
    return n;
}
ssize_t v_write(void *v, const char *b, size_t n)
{
    VCookie *c = (VCookie *)v;
    if (!c->out)
        return 0;
    virt->see(c->pos, (const uint8_t *)b, n);
    if (n < (1ull << 20) && (virt->small_out += n) > (5ull << 30))
        _exit(3);
    c->pos += n;
    if (c->pos > virt->out_size)
        virt->out_size = c->pos;
    return n;
}
int v_seek(void *v, off64_t *o, int wh)
{
    VCookie *c = (VCookie *)v;
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)c->pos : (int64_t)(c->out ? virt->out_size : virt->in_size);
    if (base + *o < 0)
        return -1;
    c->pos = base + *o;
    *o = c->pos;
    return 0;
}
int v_close(void *v)
{
    __builtin_free(v);
    return 0;
}
} // namespace
extern "C"
{
    FILE *fopen(const char *path, const char *mode)
    {
        static FILE *(*r)(const char *, const char *);
        if (!r)
            r = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
        if (virt && path)
        {
            bool vi = virt->in_path == path && mode[0] == 'r' && !strchr(mode, '+');
            bool vo = virt->out_path == path && mode[0] == 'w';
            if (vi || vo)
            {
                (vo ? virt->opened_out : virt->opened_in)++;
                VCookie *c = (VCookie *)__builtin_malloc(sizeof(VCookie));
                c->out = vo;
                c->pos = 0;
                cookie_io_functions_t io = {v_read, v_write, v_seek, v_close};
                FILE *f = fopencookie(c, mode, io);
                if (vi)
                    virt->in_file = f;
                return f;
            }
        }
        if (!ff || !path)
            return r(path, mode);
        bool in = ff->in_path == path && mode[0] == 'r';
        bool out = ff->out_path == path && mode[0] == 'w';
        if (!in && !out)
            return r(path, mode);
        int fd = open(path, in ? O_RDONLY : (mode[1] == '+' || (mode[1] && mode[2] == '+') ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC, 0666);
        if (fd < 0)
            return nullptr;
        ff->opens++;
        Cookie *c = (Cookie *)__builtin_malloc(sizeof(Cookie));
        c->fd = fd;
        c->out = out;
        c->pos = 0;
        c->dead = false;
        cookie_io_functions_t io = {c_read, c_write, c_seek, c_close};
        FILE *f = fopencookie(c, mode, io);
        if (f && out && ff->out_chunk)
            setvbuf(f, nullptr, _IOFBF, ff->out_chunk);
        return f;
    }
    // large reads of a virtual stream leave the memory alone
    size_t fread(void *p, size_t a, size_t b, FILE *f)
    {
        static size_t (*r)(void *, size_t, size_t, FILE *);
        if (!r)
            r = (size_t(*)(void *, size_t, size_t, FILE *))dlsym(RTLD_NEXT, "fread");
        if (virt && f == virt->in_file && a && b && a * b >= 4096)
        {
            off_t at = ftello(f);
            if (at >= 0)
            {
                uint64_t left = (uint64_t)at < virt->in_size ? virt->in_size - at : 0;
                uint64_t k = b;
                if (k > left / a)
                    k = left / a;
                if (k == b && fseeko(f, at + k * a, SEEK_SET) == 0)
                    return k;
            }
        }
        return r(p, a, b, f);
    }
}
#endif

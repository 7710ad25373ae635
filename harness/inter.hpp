// Interposition of library and libc symbols (see inter.cpp).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string>

namespace inter
{
// ---- library
extern uint64_t ht_size;  // number of hash buckets to use instead, 0: leave
extern uint64_t hb_size;  // bytes a table grows by, 0: leave
extern uint64_t sa_raise; // least value for the largest stored position, 0: leave
extern uint64_t n_ctor, n_sort;
extern uint64_t n_sais[5]; // calls of the sorter of each width from other functions
extern uint64_t seen_sa_max;
// the transform is stopped where it sorts; the decomposition reports at least
// this many pieces (0: off)
extern uint64_t sub_raise;
struct Stop
{
};
struct Sorter
{
    int width = -1;        // 0..4
    int arrays = 0;
    const void *out[3];
    uint64_t fs = 0, n = 0, k = 0;
    uint64_t extracted = 0;
    uint64_t made = 0;     // shortened strings that were left out
};
extern Sorter sorter;
uint64_t sparse_size(const void *p); // of a block that was mapped, 0 if it was not
void lib_reset();

// a call from code that is not instrumented (MemorySanitizer)
struct Ms
{
    uint8_t *T;
    uint64_t n;
    bool owned;
    void *r;
};
extern Ms ms;
void ms_call();

// substituted transform (file layer tests)
typedef void *(*bwt_mock)(uint8_t *T, uint64_t n, bool free_T);
extern bwt_mock mock;

// ---- allocator (only when built with VP_MALLOC)
enum FillMode
{
    FILL_NONE,
    FILL_BYTE,
    FILL_RANDOM
};
extern int fill_mode;
extern uint8_t fill_byte;
extern uint64_t fill_seed;

struct Ledger
{
    uint64_t live_blocks, live_bytes, peak_bytes, n_alloc, n_free;
    uint64_t bad_free;     // free of a tracked-then-freed block
    uint64_t overflow;     // tracking table full
};
extern bool track; // count allocations
extern Ledger led;
void led_reset(); // forget everything tracked
bool led_live(const void *p);
uint64_t led_freed(const void *p);  // how often was p released while tracking
uint64_t led_free_seq(const void *p); // event number of its last release
uint64_t led_alloc_seq(const void *p);
void led_adopt(void *p, size_t n); // treat as allocated while tracking
extern uint64_t seq;
// observed pointer: first release, and the peak of live bytes after it
extern const void *watch;
extern uint64_t watch_seq, watch_live, peak_after;

// failure injection: fails allocation number fail_at (1-based) of at least
// fail_min bytes while tracking
extern uint64_t fail_at, fail_min, fail_count;
extern uint64_t failed;

// sparse arena for realloc (address space only)
extern bool arena;
extern uint64_t arena_peak;
bool arena_init(uint64_t bytes);
void arena_done();

// very large malloc blocks are mapped without reserving memory
extern bool sparse_malloc;
uint64_t resident(); // bytes of memory in use by the process

// ---- stdio
struct FileFault
{
    std::string in_path, out_path; // which files are replaced by faulty streams
    // input
    int64_t in_fail_read_at = -1;   // read call number that fails with EIO
    int64_t in_eof_at = -1;         // file seems to end here while reading
    uint64_t in_chunk = 0;          // most bytes per read
    bool in_seek_fail = false;
    // output
    int64_t out_fail_at = -1;       // byte offset where writing fails with ENOSPC
    uint64_t out_chunk = 0;         // flush size
    bool out_short = false;         // last write before the failure is partial
    bool out_close_fail = false;
    // observed
    uint64_t opens = 0, reads = 0, writes = 0, faults = 0, closes = 0;
    uint64_t in_faults = 0;
};
extern FileFault *ff;

// virtual streams: bytes read are not produced, bytes written are shown to a
// function and dropped (files far larger than memory)
struct Virt
{
    std::string in_path, out_path;
    uint64_t in_size = 0;
    void (*see)(uint64_t pos, const uint8_t *p, uint64_t n) = nullptr;
    uint64_t opened_in = 0, opened_out = 0, small_in = 0, small_out = 0, out_size = 0;
    FILE *in_file = nullptr;
};
extern Virt *virt;
} // namespace inter

// Deterministic simulator core: one seed = one exactly repeatable execution.
//
// The library under test is linked with its allocator calls and its random source redirected
// (objcopy --redefine-sym) to sim_malloc & co. and sim_prng_rand; every nondeterministic decision of a
// run (workload, fault plan, schedule, message fate, random bytes, memory garbage, addresses) comes from
// sim::choose(), which records it.  A replay file is the list of recorded choices.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---- choices ----------------------------------------------------------------------------------------
uint32_t choose(uint32_t n);                     // 0..n-1, recorded; 0 is the "simplest" alternative
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
inline bool chance(uint32_t num, uint32_t den) { return choose(den) >= den - num; } // 0 => false
uint32_t choose_cycle(uint32_t n);               // like choose, but goes round with the run index
uint32_t pick_weighted(const unsigned *w, unsigned n);

struct Rng {                                     // bulk data generator, from one recorded sub-seed
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next();
    uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
    void fill(void *p, size_t n);
};
uint32_t subseed();                              // recorded; 0 allowed
void fill(void *p, size_t n);                    // data with a recorded shape (zero/ff/low entropy/random)
std::vector<uint8_t> bytes(size_t n);
// a length near a power of two from 2^9 up, half of them beyond 2^16: where narrow counters, fixed buffers and chunking show
inline size_t long_len() { unsigned p = choose(2) ? 16 : 9 + choose(8); size_t n = (size_t)1 << p; return p < 16 ? n - 20 + choose(60) : choose(3) ? n + choose(6000) : n - 20 + choose(60); }

// ---- trace, probes, violations -----------------------------------------------------------------------
void ev(const char *tag, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0);
void evs(const char *tag, const std::string &s); // text (hashed too)
void note(const char *tag, const std::string &s); // log text only, not part of the trace hash
void evb(const char *tag, const void *p, size_t n);
void probe(const char *name, uint64_t n = 1);    // reach counter, aggregated over runs
void note_time(uint64_t t);                      // simulated time/steps covered
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void known_finding(const char *id, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
extern bool verbose;

// ---- library calls -----------------------------------------------------------------------------------
extern const char *cur_op;                       // label of the operation in progress (for reports)
void scrub_stack();
void begin_call(const char *label, uint64_t budget);
void end_call();
inline uint64_t step_budget = 400000000ull;       // basic blocks a call may take before it counts as hanging
template <class F> inline auto call(const char *label, F f, uint64_t budget = step_budget) {
    scrub_stack();
    begin_call(label, budget);
    if constexpr (std::is_void_v<decltype(f())>) { f(); end_call(); }
    else { auto r = f(); end_call(); return r; }
}

// ---- allocator ---------------------------------------------------------------------------------------
struct Plan {                                    // allocation-failure plan, armed around one operation
    enum Mode { NONE, ONCE, STICKY, TWO, PERIODIC, BIG, RANDOM } mode = NONE;
    uint32_t k1 = 0, k2 = 0;                     // indices of the failing allocations / period / size / seed
    std::string str() const;
};
Plan choose_plan(uint32_t nallocs, const char *label = nullptr); // given how many allocations the fault-free run (the last one of label) makes
void arm(const Plan &p);
unsigned disarm();                               // number of allocation failures that fired
uint64_t alloc_calls();                          // since arm()
size_t live_blocks();
size_t live_bytes();
size_t live_mark();                              // serial of next block, for leaks_since
size_t leaks_since(size_t mark);                 // live blocks allocated since mark
bool is_live(const void *p);                     // p is the start of a live block
void *xmalloc(size_t n);                         // harness-side allocation in the simulated heap (never fails)
void xfree(void *p);
extern "C" void *sim_malloc(size_t);
extern "C" void sim_free(void *);

// ---- user buffers: exact size, poisoned surroundings ---------------------------------------------------
uint8_t *ubuf(size_t n, unsigned misalign = 0);  // garbage filled
uint8_t *ubuf_copy(const std::vector<uint8_t> &v, unsigned misalign = 0);
void ubuf_check();                               // canaries of all buffers (violation if damaged)
template <class T> T *uobj() { return (T *)ubuf(sizeof(T)); }
void garbage(void *p, size_t n);                 // run-specific garbage pattern
void readonly(void *p, size_t n);                // register a region that library calls must not change
void readonly_drop(void *p);

// ---- random source -----------------------------------------------------------------------------------
struct PrngCfg {
    enum Kind { RANDOM, ZERO, ONES, REPEAT, SPARSE, SCRIPT, LOWBITS } kind = RANDOM;
    uint64_t seed = 1;
    std::vector<uint8_t> script;                 // SCRIPT: these bytes first, then RANDOM
    uint32_t fail_at = 0xffffffff;               // index of the call that fails
    bool sticky = false;
    bool partial = true;                         // a failing call leaves garbage behind
};
void prng_set(const PrngCfg &c);
void prng_own(uint64_t seed, uint64_t fail_at = ~0ull);                    // the calling thread draws from a stream of its own from here on (0: the common one)
unsigned prng_failures();
uint64_t prng_calls();
uint64_t prng_bytes();

// ---- deterministic threads (used by C12) ---------------------------------------------------------------
// Runs the bodies as real threads of which exactly one runs at a time; the simulator decides at every
// instrumented point (basic block, and in the thr build every load/store) who goes on.
void run_threads(std::vector<std::function<void()>> bodies, unsigned max_switches, unsigned mean_quantum);
bool in_threads();
void hot_region(const void *p, size_t n);         // accesses to it attract preemptions
void thread_fault_plan(int tid, const Plan &p);  // allocation failures hit only that thread
unsigned thread_faults(int tid);

// ---- scenario ----------------------------------------------------------------------------------------
struct Config { std::vector<std::string> known; bool thorough = false; };
extern Config cfg;
void run_end_checks();                           // leaks, canaries
}

extern "C" void scenario();                      // one simulated run, defined per property
extern "C" const char *scenario_real_components();

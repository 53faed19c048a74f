#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <algorithm>
#include <exception>
#include <unordered_set>
#include <unordered_map>
#include <map>
#include <set>
#include <string>
#include <fcntl.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <time.h>

extern "C" {
void __asan_poison_memory_region(void const volatile *addr, size_t size);
void __asan_unpoison_memory_region(void const volatile *addr, size_t size);
void __asan_set_error_report_callback(void (*cb)(const char *));
void __asan_set_death_callback(void (*cb)(void));
const char *__asan_get_report_description(void);
const char *__asan_default_options(void)
{
    return "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:abort_on_error=0:"
           "halt_on_error=1:symbolize=0:handle_segv=1:allow_user_poisoning=1:poison_heap=1:print_legend=0:"
           "handle_sigfpe=1:handle_abort=1:handle_sigill=1:quarantine_size_mb=1:malloc_context_size=0:log_path=/dev/null";
}
}

namespace sim {

static constexpr uint32_t MAXCH = 1u << 18;
static constexpr uint32_t MAXCNT = 512;
static constexpr uint32_t MAXEDGE = 1u << 16;

struct Counter { char name[56]; uint64_t n; };
struct Shm {
    int status;                 // 0 running, 1 done, 2 violation
    char cls[160], desc[3000];
    uint64_t hash;
    uint32_t nch;
    uint64_t ops, allocs, faults, prngfaults, steps, simtime, maxrun_allocs;
    uint64_t edge_bits[MAXEDGE / 64];
    uint32_t ncnt;
    Counter cnt[MAXCNT];
    char known[4000];
    uint32_t evlen;
    uint32_t ch[MAXCH];
    uint32_t chn[MAXCH];        // the n of each choice (for reports)
    char evtext[1 << 20];
};
static Shm *shm;
Config cfg;
bool verbose = false;
const char *cur_op = "-";

// ---------------------------------------------------------------------------------------------- choices
static bool replaying = false;
static std::vector<uint32_t> replay_ch;
static uint32_t choice_cap = MAXCH;            // lowered while minimising: a candidate that wanders off is dropped
static uint64_t gen_state;

static uint64_t splitmix(uint64_t &s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t Rng::next() { return splitmix(s); }
void Rng::fill(void *p, size_t n)
{
    uint8_t *b = (uint8_t *)p;
    while (n >= 8) { uint64_t v = next(); memcpy(b, &v, 8); b += 8; n -= 8; }
    if (n) { uint64_t v = next(); memcpy(b, &v, n); }
}
static inline void mix(uint64_t v)
{
    uint64_t h = shm->hash ^ v;
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
    shm->hash = h;
}
static uint64_t run_idx;
uint32_t choose_cycle(uint32_t n)
{
    if (n <= 1) return 0;
    uint32_t i = shm->nch, v = replaying ? (i < replay_ch.size() ? replay_ch[i] % n : 0) : (uint32_t)(run_idx % n);
    if (i >= choice_cap) { shm->status = 4; _exit(12); }
    shm->ch[i] = v; shm->chn[i] = n; shm->nch = i + 1;
    return v;
}
uint32_t choose(uint32_t n)
{
    if (n <= 1) return 0;
    uint32_t i = shm->nch, v;
    if (i >= choice_cap) { shm->status = 4; _exit(12); }
    if (replaying) v = i < replay_ch.size() ? replay_ch[i] % n : 0;
    else v = (uint32_t)(((splitmix(gen_state) >> 32) * (uint64_t)n) >> 32);
    shm->ch[i] = v; shm->chn[i] = n; shm->nch = i + 1;
    return v;
}
uint32_t pick_weighted(const unsigned *w, unsigned n)
{
    unsigned t = 0;
    for (unsigned i = 0; i < n; i++) t += w[i];
    unsigned v = choose(t);
    for (unsigned i = 0; i < n; i++) { if (v < w[i]) return i; v -= w[i]; }
    return 0;
}
uint32_t subseed() { return choose(0x7fffffff); }
void fill(void *p, size_t n)
{
    uint32_t s = subseed();
    uint8_t *b = (uint8_t *)p;
    if (s == 0) { memset(b, 0, n); return; }
    Rng r(s);
    switch (r.below(8)) {
    case 0: memset(b, 0xff, n); break;
    case 1: for (size_t i = 0; i < n; i++) b[i] = r.below(3) ? 0 : (uint8_t)r.next(); break;
    case 2: for (size_t i = 0; i < n; i++) b[i] = r.below(3) ? 0xff : (uint8_t)r.next(); break;
    default: r.fill(b, n);
    }
}
std::vector<uint8_t> bytes(size_t n) { std::vector<uint8_t> v(n); if (n) fill(v.data(), n); return v; }

// ---------------------------------------------------------------------------------------------- trace
static void evraw(const char *s, size_t n)
{
    if (shm->evlen + n + 2 >= sizeof shm->evtext) return;
    memcpy(shm->evtext + shm->evlen, s, n);
    shm->evlen += n;
    shm->evtext[shm->evlen++] = '\n';
}
static uint64_t strh(const char *s) { uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ (uint8_t)*s++) * 1099511628211ull; return h; }
void ev(const char *tag, uint64_t a, uint64_t b, uint64_t c)
{
    mix(strh(tag)); mix(a); mix(b); mix(c);
    if (verbose) { char t[200]; int n = snprintf(t, sizeof t, "%s %lld %lld %lld", tag, (long long)a, (long long)b, (long long)c); evraw(t, n); }
}
void evb(const char *tag, const void *p, size_t n)
{
    mix(strh(tag)); mix(n);
    for (size_t i = 0; i < n; i++) mix(((const uint8_t *)p)[i]);
    if (verbose) {
        std::string s = tag; s += " ";
        static const char hx[] = "0123456789abcdef";
        for (size_t i = 0; i < n && i < 200; i++) { s += hx[((const uint8_t *)p)[i] >> 4]; s += hx[((const uint8_t *)p)[i] & 15]; }
        if (n > 200) s += "...";
        evraw(s.data(), s.size());
    }
}
void evs(const char *tag, const std::string &s)
{
    mix(strh(tag)); mix(strh(s.c_str()));
    if (verbose) { std::string t = std::string(tag) + " " + s; evraw(t.data(), t.size()); }
}
void note(const char *tag, const std::string &s) { if (verbose) { std::string t = std::string(tag) + " " + s; evraw(t.data(), t.size()); } }
void probe(const char *name, uint64_t n)
{
    for (uint32_t i = 0; i < shm->ncnt; i++)
        if (!strncmp(shm->cnt[i].name, name, sizeof shm->cnt[i].name - 1)) { shm->cnt[i].n += n; return; }
    if (shm->ncnt >= MAXCNT) return;
    Counter &c = shm->cnt[shm->ncnt++];
    strncpy(c.name, name, sizeof c.name - 1);
    c.n = n;
}
void note_time(uint64_t t) { shm->simtime += t; }

static bool dying = false;
static void finish_violation(const char *cls, const char *desc)
{
    if (dying) _exit(11);
    dying = true;
    snprintf(shm->cls, sizeof shm->cls, "%s", cls);
    snprintf(shm->desc, sizeof shm->desc, "%s", desc);
    mix(strh(cls));
    shm->status = 2;
    _exit(10);
}
void violation(const char *cls, const char *fmt, ...)
{
    char buf[2900];
    int n = snprintf(buf, sizeof buf, "[%s] ", cur_op);
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf + n, sizeof buf - n, fmt, ap);
    va_end(ap);
    finish_violation(cls, buf);
    __builtin_unreachable();
}
void known_finding(const char *id, const char *fmt, ...)
{
    char buf[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    for (auto &k : cfg.known)
        if (k == id) {
            char t[96]; snprintf(t, sizeof t, "known-finding:%s", id); probe(t); mix(strh(t));
            if (!strstr(shm->known, id)) {
                size_t l = strlen(shm->known);
                snprintf(shm->known + l, sizeof shm->known - l, "%s\t%s\n", id, buf);
            }
            return;
        }
    finish_violation(id, buf);
}
static char asan_text[2600];
static void on_asan_report(const char *t) { strncpy(asan_text, t, sizeof asan_text - 1); }
static void on_asan_death()
{
    if (!shm || dying || shm->status == 1) return;
    const char *d = __asan_get_report_description();
    char cls[140], desc[2900];
    snprintf(cls, sizeof cls, "memory:%s", d && *d ? d : "crash");
    // keep only the first line: addresses of the harness differ between builds, not between runs
    char first[400]; size_t i = 0; const char *p = strstr(asan_text, "ERROR:"); if (!p) p = asan_text;
    while (p[i] && p[i] != '\n' && i < sizeof first - 1) { first[i] = p[i]; i++; }
    first[i] = 0;
    snprintf(desc, sizeof desc, "[%s] %s", cur_op, first);
    finish_violation(cls, desc);
}

// ---------------------------------------------------------------------------------------------- arenas
static constexpr uintptr_t HEAP_BASE = 0x200000000000ull;
static constexpr size_t HEAP_SIZE = 1ull << 32;
static constexpr uintptr_t UB_LO = 0x180000000000ull, UB_HI = 0x280000000000ull;
static constexpr size_t UB_SIZE = 1ull << 28;
static uintptr_t heap_next = HEAP_BASE, ub_next[2] = {UB_LO, UB_HI};
static unsigned garbage_kind; static uint64_t garbage_seed;

struct Hdr { uint64_t magic; uint32_t cls; uint32_t state; uint64_t size; uint64_t serial; };
static constexpr uint64_t MAGIC = 0x51AB1E5EED0C0DEull;
static_assert(sizeof(Hdr) == 32, "hdr");
struct FreeQ { std::vector<uintptr_t> q; size_t head = 0; };
static std::map<uint32_t, FreeQ> freeq;
static std::set<uintptr_t> live;
static size_t nlive_bytes; static uint64_t serial_next;

static void map_arenas()
{
    for (uintptr_t b : {HEAP_BASE, UB_LO, UB_HI}) {
        size_t sz = b == HEAP_BASE ? HEAP_SIZE : UB_SIZE;
        void *p = mmap((void *)b, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void *)b) { fprintf(stderr, "sim: cannot map arena at %lx\n", (unsigned long)b); exit(3); }
    }
}
void garbage(void *p, size_t n)
{
    switch (garbage_kind) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    case 2: memset(p, 0xA5, n); break;
    default: {
        uint64_t s = garbage_seed; garbage_seed += 0x632BE59BD9B4E019ull;
        Rng r(s); r.fill(p, n);
    } }
}
static uint32_t size_class(size_t total)
{
    if (total <= 8192) return (uint32_t)((total + 31) / 32 * 32);
    uint32_t c = 16384;
    while (c < total) c <<= 1;
    return c;
}
static void *heap_alloc(size_t n)
{
    if (n > (64u << 20)) return nullptr;
    size_t total = sizeof(Hdr) + n + 32;
    uint32_t c = size_class(total);
    FreeQ &f = freeq[c];
    uintptr_t b;
    if (f.q.size() - f.head > 24) {
        b = f.q[f.head++];
        if (f.head > 4096) { f.q.erase(f.q.begin(), f.q.begin() + f.head); f.head = 0; }
    } else {
        b = heap_next; heap_next += c;
        if (heap_next > HEAP_BASE + HEAP_SIZE) violation("heap-exhausted", "simulated heap exhausted (4 GB)");
        __asan_poison_memory_region((void *)b, c);
    }
    Hdr *h = (Hdr *)b;
    h->magic = MAGIC; h->cls = c; h->state = 1; h->size = n; h->serial = serial_next++;
    void *p = h + 1;
    __asan_unpoison_memory_region(p, n);
    garbage(p, n);
    live.insert((uintptr_t)p); nlive_bytes += n;
    return p;
}
static Hdr *hdr_of(void *p, const char *what)
{
    uintptr_t a = (uintptr_t)p;
    if (a < HEAP_BASE + sizeof(Hdr) || a >= heap_next || (a & 15)) violation("bad-free", "%s of a pointer that is not from the allocator", what);
    if (!live.count(a)) {
        Hdr *h = (Hdr *)p - 1;
        if (h->magic == MAGIC && h->state == 2) violation("double-free", "%s of freed memory (block of %zu bytes)", what, (size_t)h->size);
        violation("bad-free", "%s of a pointer that is not the start of a block", what);
    }
    return (Hdr *)p - 1;
}
static void heap_free(void *p, const char *what)
{
    Hdr *h = hdr_of(p, what);
    h->state = 2;
    live.erase((uintptr_t)p); nlive_bytes -= h->size;
    memset(p, 0xDD, h->size);
    __asan_poison_memory_region(p, h->cls - sizeof(Hdr));
    freeq[h->cls].q.push_back((uintptr_t)h);
}
size_t live_blocks() { return live.size(); }
size_t live_bytes() { return nlive_bytes; }
size_t live_mark() { return serial_next; }
size_t leaks_since(size_t m) { size_t n = 0; for (auto a : live) if (((Hdr *)a - 1)->serial >= m) n++; return n; }
bool is_live(const void *p) { return live.count((uintptr_t)p) != 0; }
void *xmalloc(size_t n) { return heap_alloc(n); }
void xfree(void *p) { if (p) heap_free(p, "free"); }

// ---------------------------------------------------------------------------------------------- faults
static Plan plan; static bool armed = false;
static uint64_t arm_calls; static unsigned arm_fired;
static bool tmode = false; static int tcur = -1;
struct TState { Plan plan; uint64_t calls = 0; unsigned fired = 0; bool armed = false; };
static std::vector<TState> tplans;
static const char *op_label = "-";
static uint64_t op_budget;

std::string Plan::str() const
{
    static const char *nm[] = {"none", "once", "sticky", "two", "periodic", "big", "random"};
    char t[80]; snprintf(t, sizeof t, "%s(%u,%u)", nm[mode], k1, k2); return t;
}
// Call paths of the allocations of the last fault-free run of each operation. They let a plan aim at a place in the
// call tree (every callee of a function alike) rather than at an index, most of which lie in the same inner loop.
static std::map<std::string, std::pair<std::vector<uint32_t>, std::vector<std::vector<uintptr_t>>>> site_logs; // per label: path id per allocation; the paths
static std::vector<uint32_t> slog; static std::vector<std::vector<uintptr_t>> spaths; static std::unordered_map<uint64_t, uint32_t> sids;
static uintptr_t call_frame; static std::string last_log;
__attribute__((noinline)) static void record_site()
{
    if (slog.size() >= 400000 || !call_frame) return;
    uintptr_t *fp = (uintptr_t *)__builtin_frame_address(0), path[40]; int n = 0;
    while (n < 40) {
        uintptr_t nx = fp[0];
        if (nx <= (uintptr_t)fp || nx >= call_frame || (nx & 7)) break;
        path[n++] = fp[1]; fp = (uintptr_t *)nx;
    }
    uint64_t key = (uint64_t)n; for (int i = 0; i < n; i++) key = (key ^ path[i]) * 0x9E3779B97F4A7C15ull, key ^= key >> 29;
    auto it = sids.find(key);
    if (it == sids.end()) { std::vector<uintptr_t> v(path, path + n); std::reverse(v.begin(), v.end()); it = sids.emplace(key, (uint32_t)spaths.size()).first; spaths.push_back(v); }
    slog.push_back(it->second);
}
static uint32_t pick_site(const std::vector<uint32_t> &log, const std::vector<std::vector<uintptr_t>> &paths)
{
    std::vector<uint32_t> cand(paths.size()); for (size_t i = 0; i < cand.size(); i++) cand[i] = (uint32_t)i; // in order of first use
    for (size_t d = 0; cand.size() > 1 && d < 40; d++) {
        std::vector<uintptr_t> keys; for (auto c : cand) { uintptr_t k = d < paths[c].size() ? paths[c][d] : 0; if (std::find(keys.begin(), keys.end(), k) == keys.end()) keys.push_back(k); }
        if (keys.size() == 1) continue;
        uintptr_t k = keys[choose((uint32_t)keys.size())]; std::vector<uint32_t> nc;
        for (auto c : cand) if ((d < paths[c].size() ? paths[c][d] : 0) == k) nc.push_back(c);
        cand.swap(nc);
    }
    std::vector<uint32_t> occ; for (size_t i = 0; i < log.size(); i++) if (log[i] == cand[0]) occ.push_back((uint32_t)i);
    if (occ.empty()) return 0;
    switch (choose(3)) { case 0: return occ[0]; case 1: return occ.back(); default: return occ[choose((uint32_t)occ.size())]; }
}
Plan choose_plan(uint32_t n, const char *label)
{
    Plan p;
    if (n == 0) n = 1;
    static const unsigned w[] = {0, 10, 6, 3, 2, 2, 2};
    p.mode = (Plan::Mode)pick_weighted(w, 7);
    auto at = [&]() -> uint32_t {
        auto it = site_logs.find(label ? label : last_log);
        if (it != site_logs.end() && it->second.second.size() > 1 && (label || it->second.first.size() == n) && choose(2)) return pick_site(it->second.first, it->second.second);
        return choose(4) == 3 ? n - 1 - choose(n / 16 + 1) : choose(n); // the last steps of a long call get their share
    };
    switch (p.mode) {
    case Plan::TWO: p.k1 = at(); p.k2 = p.k1 + 1 + choose(n); break;
    case Plan::PERIODIC: p.k1 = 2 + choose(6); p.k2 = choose(p.k1); break;
    case Plan::BIG: p.k1 = 1u << (3 + choose(9)); break;
    case Plan::RANDOM: p.k1 = subseed(); p.k2 = 2 + choose(30); break;
    default: p.k1 = at(); break;
    }
    return p;
}
static bool plan_fails(const Plan &p, uint64_t i, size_t size)
{
    switch (p.mode) {
    case Plan::NONE: return false;
    case Plan::ONCE: return i == p.k1;
    case Plan::STICKY: return i >= p.k1;
    case Plan::TWO: return i == p.k1 || i == p.k2;
    case Plan::PERIODIC: return i % p.k1 == p.k2;
    case Plan::BIG: return size > p.k1;
    case Plan::RANDOM: { Rng r(p.k1 * 1000003ull + i); return r.below(p.k2) == 0; }
    }
    return false;
}
void arm(const Plan &p) { plan = p; armed = true; arm_calls = 0; arm_fired = 0; call_frame = 0; slog.clear(); spaths.clear(); sids.clear(); }
unsigned disarm()
{
    armed = false;
    if (plan.mode == Plan::NONE && !slog.empty()) { last_log = op_label; site_logs[last_log] = {std::move(slog), std::move(spaths)}; slog.clear(); spaths.clear(); }
    return arm_fired;
}
uint64_t alloc_calls() { return arm_calls; }
static bool should_fail(size_t size)
{
    shm->allocs++;
    if (tmode && tcur >= 0) {
        TState &t = tplans[tcur];
        uint64_t i = t.calls++;
        if (t.armed && plan_fails(t.plan, i, size)) { t.fired++; shm->faults++; mix(0xFA17 + i); return true; }
        return false;
    }
    if (!armed) return false;
    uint64_t i = arm_calls++;
    if (plan.mode == Plan::NONE) { record_site(); return false; }
    if (plan_fails(plan, i, size)) {
        arm_fired++; shm->faults++; mix(0xFA17 + i);
        static const char *nm[] = {"alloc-fail:none", "alloc-fail:once", "alloc-fail:sticky", "alloc-fail:two-points", "alloc-fail:periodic", "alloc-fail:size-limit", "alloc-fail:random"};
        probe(nm[plan.mode]);
        if (verbose) { char t[160]; int n = snprintf(t, sizeof t, "  FAULT alloc #%llu of %zu bytes fails in %s", (unsigned long long)i, size, op_label); evraw(t, n); }
        return true;
    }
    return false;
}
static void tpoint();
extern "C" {
void *sim_malloc(size_t n) { if (tmode) tpoint(); if (should_fail(n)) return nullptr; return heap_alloc(n); }
void sim_free(void *p) { if (tmode) tpoint(); if (p) heap_free(p, "free"); }
void *sim_calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    if (should_fail(n)) return nullptr;
    void *p = heap_alloc(n); if (p) memset(p, 0, n); return p;
}
void *sim_realloc(void *p, size_t n)
{
    if (tmode) tpoint();
    if (!p) { if (should_fail(n)) return nullptr; return heap_alloc(n); }
    Hdr *h = hdr_of(p, "realloc");
    if (n == 0) { heap_free(p, "realloc"); return nullptr; }
    if (should_fail(n)) return nullptr;
    void *q = heap_alloc(n);                       // always moves: stale pointers are caught
    if (!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n);
    heap_free(p, "realloc");
    return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; return sim_realloc(p, n); }
void *sim_aligned_alloc(size_t, size_t n) { if (should_fail(n)) return nullptr; return heap_alloc(n); }
int sim_posix_memalign(void **out, size_t, size_t n) { if (should_fail(n)) return 12; *out = heap_alloc(n); return *out ? 0 : 12; }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; if (should_fail(n)) return nullptr; char *p = (char *)heap_alloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); if (should_fail(n + 1)) return nullptr; char *p = (char *)heap_alloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void cry_assert_fail(const char *s, const char *f, int l)
{
    const char *b = strrchr(f, '/');
    violation("assert", "library assertion failed: %s (%s:%d)", s, b ? b + 1 : f, l);
}
}

// ---------------------------------------------------------------------------------------------- user buffers
struct UB { uintptr_t base, start; size_t n; size_t tot; };
static std::vector<UB> ubs; static uint8_t ub_canary = 0xC7;
struct RO { const uint8_t *p; size_t n; std::vector<uint8_t> copy; };
static std::vector<RO> ros;
static unsigned ub_side;
uint8_t *ubuf(size_t n, unsigned misalign)
{
    misalign &= 15;
    size_t tot = (32 + misalign + n + 32 + 31) & ~(size_t)31;
    uintptr_t &nx = ub_next[ub_side];
    uintptr_t b = nx; nx += tot;
    if (nx > (ub_side ? UB_HI : UB_LO) + UB_SIZE) violation("harness", "user arena exhausted");
    memset((void *)b, ub_canary, tot);
    uintptr_t s = b + 32 + misalign;
    __asan_poison_memory_region((void *)b, tot);
    uintptr_t al = s & ~(uintptr_t)7;
    __asan_unpoison_memory_region((void *)al, s + n - al);
    garbage((void *)s, n);
    ubs.push_back({b, s, n, tot});
    return (uint8_t *)s;
}
uint8_t *ubuf_copy(const std::vector<uint8_t> &v, unsigned mis) { uint8_t *p = ubuf(v.size(), mis); if (!v.empty()) memcpy(p, v.data(), v.size()); return p; }
void ubuf_check()
{
    for (auto &u : ubs) {
        for (uintptr_t a = u.base; a < u.start; a++) if (*(uint8_t *)a != ub_canary) violation("write-outside", "byte %ld before a caller buffer of %zu bytes was overwritten", (long)(a - u.start), u.n);
        for (uintptr_t a = u.start + u.n; a < u.base + u.tot; a++) if (*(uint8_t *)a != ub_canary) violation("write-outside", "byte +%ld after a caller buffer of %zu bytes was overwritten", (long)(a - u.start - u.n), u.n);
    }
}
void readonly(void *p, size_t n) { RO r; r.p = (const uint8_t *)p; r.n = n; r.copy.assign(r.p, r.p + n); ros.push_back(std::move(r)); }
void readonly_drop(void *p) { for (size_t i = 0; i < ros.size(); i++) if (ros[i].p == p) { ros.erase(ros.begin() + i); return; } }

// ---------------------------------------------------------------------------------------------- calls
static uint64_t steps_in_op, steps_total;
static unsigned char *stack_lo;
__attribute__((noinline)) void scrub_stack()
{
    char *b = (char *)__builtin_alloca(40960);
    garbage(b, 40960);
    asm volatile("" ::"r"(b) : "memory");
}
void begin_call(const char *label, uint64_t budget)
{
    shm->ops++;
    if (!tmode) { call_frame = ((uintptr_t *)__builtin_frame_address(0))[0]; op_label = label; cur_op = label; steps_in_op = 0; op_budget = budget; }
    mix(strh(label));
}
void end_call()
{
    for (auto &r : ros) if (memcmp(r.p, r.copy.data(), r.n)) violation("input-modified", "a read-only input of %zu bytes was modified", r.n);
    if (!tmode) op_budget = ~0ull;
}

// ---------------------------------------------------------------------------------------------- coverage
static uint32_t nguards;
static bool counting = false;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b)
{
    if (a == b || *a) return;
    for (uint32_t *p = a; p < b; p++) *p = ++nguards;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *g)
{
    if (!counting) return;
    uint32_t i = *g;
    if (i < MAXEDGE) shm->edge_bits[i >> 6] |= 1ull << (i & 63);
    steps_total++;
    if (tmode) { tpoint(); return; }
    if (++steps_in_op > op_budget) violation("hang", "operation did not finish within %llu basic-block steps", (unsigned long long)op_budget);
}
// Accesses to writable globals and to objects the threads share are where a preemption matters most.
extern "C" char __data_start, _end;
static void taccess(void *a, unsigned st);
// an access to the thread's own stack is no scheduling point
#define CB(name, n) extern "C" void name(void *a) { if (tmode && (uintptr_t)a - (uintptr_t)__builtin_frame_address(0) > (1u << 20)) taccess(a, n); }
CB(__sanitizer_cov_load1, 0) CB(__sanitizer_cov_load2, 0) CB(__sanitizer_cov_load4, 0) CB(__sanitizer_cov_load8, 0) CB(__sanitizer_cov_load16, 0)
CB(__sanitizer_cov_store1, 1) CB(__sanitizer_cov_store2, 2) CB(__sanitizer_cov_store4, 4) CB(__sanitizer_cov_store8, 8) CB(__sanitizer_cov_store16, 8)

// ---------------------------------------------------------------------------------------------- PRNG
static thread_local bool p_own; static thread_local Rng p_ownrng(1);
static thread_local uint64_t p_ownfail = ~0ull;
void prng_own(uint64_t seed, uint64_t fail_at) { p_own = seed != 0; p_ownrng = Rng(seed); p_ownfail = fail_at; }
static PrngCfg pc; static uint64_t p_calls, p_bytes; static unsigned p_fail; static Rng prng(1); static size_t p_spos;
void prng_set(const PrngCfg &c) { pc = c; p_calls = 0; p_bytes = 0; p_fail = 0; prng = Rng(c.seed); p_spos = 0; }
unsigned prng_failures() { return p_fail; }
uint64_t prng_calls() { return p_calls; }
uint64_t prng_bytes() { return p_bytes; }
extern "C" int sim_prng_rand(unsigned char *buf, size_t n)
{
    uint64_t i = p_calls++;
    p_bytes += n;
    mix(0x9A4D + n);
    if (p_own && p_ownfail != ~0ull && p_ownfail-- == 0) { p_ownfail = ~0ull; shm->prngfaults++; probe("prng-fail"); return -1; }
    if (i == pc.fail_at || (pc.sticky && i >= pc.fail_at)) {
        p_fail++; shm->prngfaults++; probe("prng-fail");
        if (pc.partial) garbage(buf, n);
        if (verbose) evraw("  FAULT random source fails", 27);
        return -1;
    }
    for (size_t j = 0; j < n; j++) {
        uint8_t v;
        if (p_own) { buf[j] = (uint8_t)p_ownrng.next(); continue; }
        switch (pc.kind) {
        case PrngCfg::ZERO: v = 0; break;
        case PrngCfg::ONES: v = 0xff; break;
        case PrngCfg::REPEAT: v = (uint8_t)(pc.seed >> (8 * ((p_spos++) % 5))); break;
        case PrngCfg::SPARSE: v = prng.below(4) ? 0 : (uint8_t)prng.next(); break;
        case PrngCfg::LOWBITS: v = (uint8_t)prng.below(4); break;
        case PrngCfg::SCRIPT: v = p_spos < pc.script.size() ? pc.script[p_spos++] : (uint8_t)prng.next(); break;
        default: v = (uint8_t)prng.next();
        }
        buf[j] = v;
    }
    return 0;
}

// ---------------------------------------------------------------------------------------------- threads
// One baton: the thread holding it runs. Every instrumented point counts down the quantum; at zero the
// simulator chooses the next thread and the next quantum.
struct Thr { pthread_t th; sem_t sem; std::function<void()> body; bool done = false; };
static std::vector<Thr> *thr; static unsigned t_switches, t_maxswitches, t_meanq; static uint64_t t_quantum, t_steps, t_budget;
static sem_t main_sem;
static thread_local bool t_inhook = false;
static unsigned pick_quantum()
{
    // mixes very short and long slices
    unsigned c = choose(4);
    unsigned m = c == 0 ? t_meanq * 8 : c == 1 ? t_meanq : c == 2 ? std::max(1u, t_meanq / 8) : 3;
    return 1 + choose(2 * m);
}
// A thread that has just written a writable global may be held there until another thread has put a different value
// in the same place (or has nothing left to do): it then continues with the other thread's value.
static unsigned t_hotdraws; static int t_held = -1; static uintptr_t t_heldaddr; static uint64_t t_heldval, t_holdgap;
struct PendingStore { uintptr_t a = 0; unsigned n = 0; }; static thread_local PendingStore t_store;
static uint64_t tread(uintptr_t a, unsigned n) { uint64_t v = 0; memcpy(&v, (void *)a, n); return v; }
static int pick_next(bool self_ok)
{
    std::vector<int> r;
    if (self_ok && tcur != t_held) r.push_back(tcur);
    for (size_t i = 0; i < thr->size(); i++) if (!(*thr)[i].done && (int)i != tcur && (int)i != t_held) r.push_back((int)i);
    if (r.empty() && t_held >= 0 && !(*thr)[t_held].done) { r.push_back(t_held); t_held = -1; }
    if (r.empty()) return -1;
    return r[choose((uint32_t)r.size())];
}
static void tswitch(int me, int nx)
{
    t_switches++; probe("preemptions"); mix(0x5C0 + nx); mix(t_steps);
    tcur = nx;
    sem_post(&(*thr)[nx].sem);
    sem_wait(&(*thr)[me].sem);
}
static void stored()
{
    PendingStore p = t_store; t_store.a = 0;
    uint64_t v = tread(p.a, p.n); int me = tcur;
    if (t_held >= 0 && t_held != me && p.a == t_heldaddr && v != t_heldval) { probe("held-thread-overtaken"); int h = t_held; t_held = -1; if (++t_hotdraws < 4000 && choose(8)) { t_quantum = pick_quantum(); tswitch(me, h); } }
    else if (t_held < 0 && t_switches < t_maxswitches && --t_holdgap == 0 && ++t_hotdraws < 4000) {
        static const unsigned g[] = {3, 12, 60, 400}; t_holdgap = 1 + choose(g[choose(4)]);
        int left = 0; for (auto &t : *thr) left += !t.done;
        if (left > 1) { probe("held-after-global-write"); t_held = me; t_heldaddr = p.a; t_heldval = v; int nx = pick_next(false); t_quantum = pick_quantum(); tswitch(me, nx); }
    }
}
static void tpoint()
{
    if (!tmode || t_inhook) return;
    if (++t_steps > t_budget) violation("hang", "threads did not finish within the step budget");
    if (t_store.a) { t_inhook = true; stored(); t_inhook = false; }
    if (--t_quantum > 0) return;
    t_inhook = true;
    if (t_switches >= t_maxswitches) { t_quantum = ~0ull; t_held = -1; }
    else {
        int me = tcur, nx = pick_next(true), left = 0;
        for (auto &t : *thr) left += !t.done;
        t_quantum = left > 1 ? pick_quantum() : ~0ull;
        if (nx != me && nx >= 0) tswitch(me, nx);
    }
    t_inhook = false;
}
static std::vector<std::pair<uintptr_t, size_t>> hots;
void hot_region(const void *p, size_t n) { if (n) hots.push_back({(uintptr_t)p, n}); }
static bool hot(void *a)
{
    if (a >= (void *)&__data_start && a < (void *)&_end) return true;
    for (auto &h : hots) if ((uintptr_t)a - h.first < h.second) return true;
    return false;
}
// every t_hotgap-th such access ends the current slice within a point or two
static uint64_t t_hotgap;
static uint64_t pick_hotgap() { static const unsigned m[] = {6, 40, 400, 4000}; if (++t_hotdraws > 4000) return ~0ull; return 1 + choose(m[choose(4)]); }
static void taccess(void *a, unsigned st)
{
    if (!t_inhook && t_switches < t_maxswitches && hot(a)) {
        t_inhook = true; probe("hot-access");
        if (--t_hotgap == 0) { t_hotgap = pick_hotgap(); if (t_quantum > 2) t_quantum = 1 + choose(2); }
        t_inhook = false;
    }
    tpoint();
    if (st && !t_inhook && a >= (void *)&__data_start && a < (void *)&_end) { t_store.a = (uintptr_t)a; t_store.n = st; }
}
static void *tmain(void *a)
{
    size_t me = (size_t)a;
    sem_wait(&(*thr)[me].sem);
    t_inhook = true; { char *b = (char *)__builtin_alloca(40960); garbage(b, 40960); asm volatile("" ::"r"(b) : "memory"); } t_inhook = false;
    (*thr)[me].body();
    t_inhook = true;
    (*thr)[me].done = true;
    tcur = (int)me;
    int nx = pick_next(false);
    if (nx < 0) sem_post(&main_sem);
    else { t_quantum = t_switches >= t_maxswitches ? ~0ull : pick_quantum(); tcur = nx; mix(0x5D0 + nx); sem_post(&(*thr)[nx].sem); }
    return nullptr;
}
bool in_threads() { return tmode; }
void thread_fault_plan(int tid, const Plan &p) { if ((int)tplans.size() <= tid) tplans.resize(tid + 1); tplans[tid].plan = p; tplans[tid].armed = true; }
unsigned thread_faults(int tid) { return tid < (int)tplans.size() ? tplans[tid].fired : 0; }
void run_threads(std::vector<std::function<void()>> bodies, unsigned max_switches, unsigned mean_quantum)
{
    std::vector<Thr> v(bodies.size());
    thr = &v; tplans.resize(bodies.size());
    t_switches = 0; t_maxswitches = max_switches; t_meanq = mean_quantum; t_steps = 0; t_budget = 3000000000ull;
    sem_init(&main_sem, 0, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
    for (size_t i = 0; i < v.size(); i++) {
        v[i].body = bodies[i]; sem_init(&v[i].sem, 0, 0);
        pthread_create(&v[i].th, &at, tmain, (void *)i);
    }
    tcur = -1;
    tcur = pick_next(false);
    t_quantum = pick_quantum(); t_hotdraws = 0; t_hotgap = pick_hotgap(); t_held = -1; t_holdgap = 1 + choose(6);
    tmode = true;
    sem_post(&v[tcur].sem);
    sem_wait(&main_sem);
    tmode = false;
    for (auto &t : v) pthread_join(t.th, nullptr);
    probe("thread-runs");
    ev("threads", t_switches, t_steps);
    thr = nullptr; tcur = -1;
}

void run_end_checks()
{
    ubuf_check();
    if (!live.empty()) {
        Hdr *h = (Hdr *)*live.begin() - 1;
        violation("leak", "%zu block(s) still allocated at the end of the run after everything was cleared (first: %zu bytes)", live.size(), (size_t)h->size);
    }
}

// ---------------------------------------------------------------------------------------------- run loop
static void one_run_child()
{
    op_budget = ~0ull;
    garbage_kind = choose(4); garbage_seed = subseed(); ub_side = choose(2);
    PrngCfg p; p.seed = 77; prng_set(p);
    counting = true;
    std::set_terminate([] { shm->status = 3; _exit(12); });
    scenario();
    counting = false;
    cur_op = "end-of-run";
    run_end_checks();
    shm->steps += steps_total;
    mix(steps_total);
    shm->status = 1;
    _exit(0);
}
// returns 0 ok, 1 violation, 2 harness error
static int one_run(double wall_limit)
{
    shm->status = 0; shm->hash = 0x1234567; shm->nch = 0; shm->cls[0] = shm->desc[0] = 0; shm->evlen = 0;
    pid_t p = fork();
    if (p < 0) { perror("fork"); return 2; }
    if (p == 0) {
        if (wall_limit > 0) alarm((unsigned)wall_limit);
        one_run_child();
    }
    int st;
    while (waitpid(p, &st, 0) < 0) ;
    if (shm->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (shm->status == 2) return 1;
    if (shm->status == 4) { snprintf(shm->cls, sizeof shm->cls, "too-many-choices"); return 2; }
    if (shm->status == 3) { snprintf(shm->cls, sizeof shm->cls, "harness-exception"); fprintf(stderr, "sim: exception in the harness\n"); return 2; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { snprintf(shm->cls, sizeof shm->cls, "wall-limit"); return 2; }
    snprintf(shm->cls, sizeof shm->cls, "crash:%s-%d", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    snprintf(shm->desc, sizeof shm->desc, "process ended abnormally (%s)", shm->cls);
    return 1;
}
static uint64_t run_seed(uint64_t seed, uint64_t idx)
{
    uint64_t s = seed * 0x9E3779B97F4A7C15ull + 0x1337;
    uint64_t a = splitmix(s);
    s = a ^ (idx * 0xD1B54A32D192ED03ull + 99);
    return splitmix(s);
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void jstr(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
static std::vector<uint32_t> cur_choices() { return std::vector<uint32_t>(shm->ch, shm->ch + shm->nch); }
static void write_viol(FILE *f, const std::vector<uint32_t> &ch)
{
    fprintf(f, "\"class\":"); jstr(f, shm->cls); fprintf(f, ",\"desc\":"); jstr(f, shm->desc);
    fprintf(f, ",\"hash\":\"%016llx\",\"choices\":[", (unsigned long long)shm->hash);
    for (size_t i = 0; i < ch.size(); i++) fprintf(f, "%s%u", i ? "," : "", ch[i]);
    fprintf(f, "]");
}
static void write_stats(FILE *f, uint64_t runs, const std::unordered_set<uint64_t> &hashes, double wall, uint64_t maxidx)
{
    unsigned e = 0;
    for (auto w : shm->edge_bits) e += __builtin_popcountll(w);
    fprintf(f, "\"runs\":%llu,\"distinct\":%zu,\"ops\":%llu,\"allocs\":%llu,\"alloc_faults\":%llu,\"prng_faults\":%llu,\"steps\":%llu,\"simtime\":%llu,\"edges_hit\":%u,\"edges\":%u,\"wall\":%.3f,\"last_idx\":%llu,\"probes\":{",
            (unsigned long long)runs, hashes.size(), (unsigned long long)shm->ops, (unsigned long long)shm->allocs, (unsigned long long)shm->faults, (unsigned long long)shm->prngfaults,
            (unsigned long long)shm->steps, (unsigned long long)shm->simtime, e, nguards, wall, (unsigned long long)maxidx);
    for (uint32_t i = 0; i < shm->ncnt; i++) { fprintf(f, "%s", i ? "," : ""); jstr(f, shm->cnt[i].name); fprintf(f, ":%llu", (unsigned long long)shm->cnt[i].n); }
    fprintf(f, "},\"edge_bits\":\"");
    for (uint32_t i = 0; i <= nguards / 64 && i < MAXEDGE / 64; i++) fprintf(f, "%016llx", (unsigned long long)shm->edge_bits[i]);
    fprintf(f, "\",\"known\":"); jstr(f, shm->known);
}
static std::vector<uint32_t> load_choices(const char *path, std::string &cls, std::string &hash)
{
    FILE *f = fopen(path, "r");
    if (!f) { perror(path); exit(3); }
    std::string s; char b[65536]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    auto str = [&](const char *k) { std::string key = std::string("\"") + k + "\":"; size_t p = s.find(key); if (p == std::string::npos) return std::string();
        p += key.size(); while (s[p] == ' ') p++; if (s[p] != '"') return std::string(); size_t q = s.find('"', p + 1); return s.substr(p + 1, q - p - 1); };
    cls = str("class"); hash = str("hash");
    std::vector<uint32_t> v; size_t p = s.find("\"choices\":"); p = s.find('[', p) + 1;
    while (p < s.size() && s[p] != ']') { if (isdigit((unsigned char)s[p])) { v.push_back((uint32_t)strtoul(&s[p], nullptr, 10)); while (isdigit((unsigned char)s[p])) p++; } else p++; }
    return v;
}
// two violation classes are "the same" when their text before the first '/' agrees
static std::string cls_key(const std::string &c) { return c.substr(0, c.find('/')); }

static void shrink(std::vector<uint32_t> &best, std::string cls, double tlimit, double runlimit)
{
    double t0 = now(); replaying = true;
    std::unordered_set<uint64_t> tried;
    auto fails = [&](const std::vector<uint32_t> &c, std::vector<uint32_t> &norm) {
        uint64_t h = c.size(); for (auto x : c) h = (h ^ x) * 0x100000001b3ull + 7;
        if (!tried.insert(h).second) return false;
        replay_ch = c;
        if (one_run(runlimit) != 1 || cls_key(shm->cls) != cls_key(cls)) return false;
        norm = cur_choices();
        while (!norm.empty() && norm.back() == 0) norm.pop_back();
        return true;
    };
    auto better = [](const std::vector<uint32_t> &a, const std::vector<uint32_t> &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        uint64_t sa = 0, sb = 0; for (auto x : a) sa += x ? 1 + (x > 8) : 0; for (auto x : b) sb += x ? 1 + (x > 8) : 0;
        if (sa != sb) return sa < sb;
        return a < b;
    };
    std::vector<uint32_t> n;
    choice_cap = (uint32_t)std::min<size_t>(MAXCH, best.size() * 2 + 4096);
    double f0 = now(); bool again = fails(best, n);
    runlimit = std::min(runlimit, std::max(2.0, 5 * (now() - f0) + 1));
    if (again && better(n, best)) best = n;
    bool progress = true;
    while (progress && now() - t0 < tlimit) {
        progress = false;
        for (size_t len = best.size() / 2; len > 0 && now() - t0 < tlimit; len /= 2) {   // truncate
            if (len >= best.size()) continue;
            std::vector<uint32_t> c(best.begin(), best.end() - len);
            if (fails(c, n) && better(n, best)) { best = n; progress = true; len = best.size(); }
        }
        for (size_t w = std::max<size_t>(1, best.size() / 2); w > 0 && now() - t0 < tlimit; w /= 2)   // delete chunks
            for (size_t i = 0; i + w <= best.size() && now() - t0 < tlimit;) {
                std::vector<uint32_t> c(best); c.erase(c.begin() + i, c.begin() + i + w);
                if (fails(c, n) && better(n, best)) { best = n; progress = true; } else i += w;
            }
        for (size_t w = std::max<size_t>(1, best.size() / 4); w > 0 && now() - t0 < tlimit; w /= 2)   // zero chunks
            for (size_t i = 0; i + w <= best.size() && now() - t0 < tlimit; i += w) {
                std::vector<uint32_t> c(best); bool nz = false;
                for (size_t j = i; j < i + w; j++) { nz |= c[j] != 0; c[j] = 0; }
                if (nz && fails(c, n) && better(n, best)) { best = n; progress = true; }
            }
        for (size_t i = 0; i < best.size() && now() - t0 < tlimit; i++)                    // halve values
            for (uint32_t v : {best[i] / 2, best[i] - 1}) {
                if (i >= best.size() || best[i] < 2) break;
                std::vector<uint32_t> c(best); c[i] = v;
                if (fails(c, n) && better(n, best)) { best = n; progress = true; }
            }
    }
}
}
using namespace sim;

int main(int argc, char **argv)
{
    std::string mode = argc > 1 ? argv[1] : "run", out, in;
    uint64_t seed = 1, from = 0, stride = 1, n = 100; double tl = 60, runlimit = 120;
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string a = argv[i]; const char *v = argv[i + 1];
        if (a == "--seed") seed = strtoull(v, 0, 10);
        else if (a == "--from") from = strtoull(v, 0, 10);
        else if (a == "--stride") stride = strtoull(v, 0, 10);
        else if (a == "--n") n = strtoull(v, 0, 10);
        else if (a == "--time") tl = atof(v);
        else if (a == "--runlimit") runlimit = atof(v);
        else if (a == "--out") out = v;
        else if (a == "--in") in = v;
        else if (a == "--thorough") cfg.thorough = atoi(v);
        else if (a == "--known") { std::string s = v; size_t p = 0; while (p <= s.size()) { size_t q = s.find(',', p); if (q == std::string::npos) q = s.size(); if (q > p) cfg.known.push_back(s.substr(p, q - p)); p = q + 1; } }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) { perror("mmap"); return 3; }
    map_arenas();
    __asan_set_error_report_callback(on_asan_report);
    __asan_set_death_callback(on_asan_death);
    FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) { perror(out.c_str()); return 3; }

    if (mode == "run") {
        // scan run indices; stop at the first violation
        std::unordered_set<uint64_t> hashes; double t0 = now(); uint64_t runs = 0, idx = from, last = from; int viol = 0, err = 0;
        for (uint64_t k = 0; k < n && now() - t0 < tl; k++, idx += stride) {
            gen_state = run_seed(seed, idx); run_idx = idx;
            int r = one_run(runlimit);
            runs++; last = idx;
            if (r == 2) { err++; fprintf(stderr, "sim: run %llu (seed %llu) has no verdict: %s\n", (unsigned long long)idx, (unsigned long long)seed, shm->cls); if (err > 3) break; continue; }
            hashes.insert(shm->hash);
            if (r == 1) { viol = 1; break; }
        }
        fprintf(f, "{"); write_stats(f, runs, hashes, now() - t0, last);
        fprintf(f, ",\"errors\":%d", err);
        fprintf(f, ",\"hashes\":["); size_t c = 0; for (auto h : hashes) { fprintf(f, "%s\"%016llx\"", c++ ? "," : "", (unsigned long long)h); } fprintf(f, "]");
        if (viol) { fprintf(f, ",\"violation\":{\"idx\":%llu,", (unsigned long long)last); write_viol(f, cur_choices()); fprintf(f, "}"); }
        fprintf(f, "}\n"); fclose(f);
        return err ? 2 : viol ? 1 : 0;
    }
    if (mode == "one" || mode == "replay") {
        verbose = true;
        std::string cls, hash;
        if (mode == "one") { gen_state = run_seed(seed, from); run_idx = from; }
        else { replaying = true; replay_ch = load_choices(in.c_str(), cls, hash); }
        int r = one_run(runlimit);
        fprintf(f, "{\"status\":%d,", r); write_viol(f, cur_choices()); fprintf(f, ",\"log\":[");
        char *p = shm->evtext; shm->evtext[shm->evlen < sizeof shm->evtext ? shm->evlen : sizeof shm->evtext - 1] = 0; bool first = true;
        while (p && *p) { char *q = strchr(p, '\n'); if (q) *q = 0; if (!first) fputc(',', f); first = false; jstr(f, p); p = q ? q + 1 : nullptr; }
        fprintf(f, "]}\n"); fclose(f);
        return r == 0 ? 0 : r == 1 ? 1 : 2;
    }
    if (mode == "hashes") {
        double t0 = now();
        for (uint64_t k = 0, idx = from; k < n && now() - t0 < tl; k++, idx += stride) {
            gen_state = run_seed(seed, idx); run_idx = idx;
            int r = one_run(runlimit);
            fprintf(f, "%llu %016llx %d\n", (unsigned long long)idx, (unsigned long long)shm->hash, r);
        }
        fclose(f);
        return 0;
    }
    if (mode == "shrink") {
        std::string cls, hash; std::vector<uint32_t> best = load_choices(in.c_str(), cls, hash);
        size_t before = best.size();
        shrink(best, cls, tl, runlimit);
        replay_ch = best; replaying = true; verbose = true; choice_cap = MAXCH;
        int r = one_run(runlimit);
        fprintf(f, "{\"status\":%d,\"before\":%zu,", r, before); write_viol(f, best); fprintf(f, ",\"log\":[");
        char *p = shm->evtext; shm->evtext[shm->evlen < sizeof shm->evtext ? shm->evlen : sizeof shm->evtext - 1] = 0; bool first = true;
        while (p && *p) { char *q = strchr(p, '\n'); if (q) *q = 0; if (!first) fputc(',', f); first = false; jstr(f, p); p = q ? q + 1 : nullptr; }
        fprintf(f, "]}\n"); fclose(f);
        return r == 1 ? 0 : 2;
    }
    fprintf(stderr, "unknown mode\n");
    return 3;
}

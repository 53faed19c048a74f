// C14: memory xor over arbitrarily overlapping regions, with the temporary buffer some overlaps need failing at times.
#include "sym.h"
extern "C" {
#include "crypt/memxor.h"
}
using namespace sim;
extern "C" const char *scenario_real_components() { return ""; }
namespace {
bool faulty;
// positions of the operands in one arena: anything from disjoint to identical
void one(bool three, bool finding)
{
    size_t n; if (choose(100) == 99 && !finding) { n = long_len(); probe("long"); } else switch (choose(5)) { case 0: n = choose(4); break; case 1: n = 8 + choose(10); break; case 2: n = choose(80); break; case 3: n = choose(500); break; default: n = choose(30); } if (finding) n += 2;
    size_t span = choose(3) == 0 ? 3 * n + 40 : choose(2) ? n + choose((uint32_t)n + 2) : 2 * n + choose((uint32_t)n + 2), len = span + 1 + choose(8); if (len < n + 1) len = n + 1;
    size_t lim = len - n, d = choose((uint32_t)lim + 1), a = choose((uint32_t)lim + 1), b = choose((uint32_t)lim + 1);
    switch (choose(8)) { case 0: a = d; break; case 1: b = d; break; case 2: a = b; break; case 3: a = b = d; break; case 4: if (d < lim) a = d + 1; break; case 5: if (d > 0) b = d - 1; break; }
    if (finding) { a = 0; d = 1; b = 2; if (lim < 2) { len = n + 4; lim = 4; } } // the geometry of the recorded finding
    uint8_t *mem = ubuf(len, choose(8)); Bytes before = bytes(len); memcpy(mem, before.data(), len); Bytes want = before;
    for (size_t i = 0; i < n; i++) want[d + i] = three ? before[a + i] ^ before[b + i] : before[d + i] ^ before[a + i];
    Plan p; if (finding || (faulty && choose(3))) { p.mode = finding || choose(2) ? Plan::STICKY : Plan::RANDOM; p.k1 = p.mode == Plan::RANDOM ? subseed() : 0; }
    ev(three ? "memxor2" : "memxor", n, d, a); ev("src2", b, p.mode); size_t live0 = live_blocks(); arm(p);
    call(three ? "cry_memxor2" : "cry_memxor", [&] { if (three) cry_memxor2(mem + d, mem + a, mem + b, n); else cry_memxor(mem + d, mem + a, n); });
    unsigned fired = disarm(); if (live_blocks() != live0) violation("leak", "memory xor leaks");
    probe(three ? "memxor2" : "memxor"); size_t lo = std::min(a, b), hi = std::max(a, b); bool threeway = three && n && lo < d && d < hi && hi < d + n && d < lo + n && hi <= lo + n;
    if (three && n) { if (threeway) probe("overlap:both-sides"); else if (lo < d && d < lo + n && d < hi && hi < d + n) probe("overlap:around"); else if (d < lo && lo < d + n) probe("overlap:below"); else if (d > hi && d < hi + n) probe("overlap:above"); }
    if (!memcmp(mem, want.data(), len)) { if (fired) probe("right-without-memory"); return; }
    if (fired && threeway && !memcmp(mem, before.data(), len)) { known_finding("memxor2-nomem", "cry_memxor2 with src1 < dst < src2 all overlapping: when its temporary buffer cannot be allocated it silently leaves the destination unchanged"); return; }
    for (size_t i = 0; i < len; i++) if ((i < d || i >= d + n) && mem[i] != before[i]) violation("outside-changed", "byte %zu outside of the destination changed (n=%zu dst=%zu src1=%zu src2=%zu)", i, n, d, a, b);
    violation(fired ? "wrong-xor-without-memory" : "wrong-xor", "%s: n=%zu, dst at %zu, src1 at %zu, src2 at %zu", three ? "cry_memxor2" : "cry_memxor", n, d, a, b);
}
}
extern "C" void scenario()
{
    faulty = choose(2); unsigned n = 1 + choose(12);
    for (unsigned i = 0; i < n; i++) one(choose(3) != 0, i == 0 && choose(64) == 63);
    note_time(n);
}

// C07: digests, MACs and CRCs over fragmented, interleaved streams. Several producers feed their own contexts; the
// simulator decides how each stream is cut and in which order the calls of different contexts interleave.
#include "sym.h"
#include <sys/mman.h>
#include <unistd.h>
using namespace sim;
extern "C" const char *scenario_real_components() { return ""; }
#ifdef VARIANT_big
// state of the reference after 511 and 4095 copies of the fixed megabyte (computed once with ref::Hash, to save time)
static const struct { unsigned kind, mb; uint64_t s[8]; } mids[8] = {
{0, 511, {0x761b15f2, 0xb81dc250, 0x88a21930, 0x746264c7, 0xc3d2e1f0, 0x0, 0x0, 0x0, }},
{0, 4095, {0x3b85f534, 0xa0936ee1, 0xb713026, 0xc1db402d, 0xc3d2e1f0, 0x0, 0x0, 0x0, }},
{1, 511, {0x8b5f1e2d, 0xd8cb3f85, 0xfd088679, 0x4be204cd, 0xf783a523, 0x0, 0x0, 0x0, }},
{1, 4095, {0xa37c6c6b, 0xc90b1df2, 0x1f1ff831, 0x9986d7d8, 0x9d8291bb, 0x0, 0x0, 0x0, }},
{2, 511, {0x49fadf7f, 0xac361d92, 0x6da30454, 0xcea00190, 0x85709d67, 0x49dd6411, 0x9172f01b, 0xa51f765a, }},
{2, 4095, {0x766a55bb, 0x95397fa7, 0xec37f6d5, 0x99912114, 0x92b53ea9, 0xb33ee004, 0xc98a55ed, 0xb17ade95, }},
{4, 511, {0xdc44f6cfbc8269a7ull, 0xb9b72a78bc278a9dull, 0x594358846f6cabecull, 0xf24094c6c46d9e62ull, 0xf016bf298437dfbeull, 0xdec5e8e80cf749acull, 0xb79a48869a3feb98ull, 0x9cd93153db1c4c3dull, }},
{4, 4095, {0xb440231186457cf9ull, 0xdb12403c3ac867cbull, 0x76ac3a16c29e3e4eull, 0x28ef155f06b1e15dull, 0x381294c11218c1dfull, 0xf642a46e6b6c0cdeull, 0x17e91551289cb503ull, 0xca1be0953b260b30ull, }},
};
// streams of more than 2^29 and 2^32 bytes, so that the length counters of the algorithms carry
extern "C" void scenario()
{
    unsigned kind = choose_cycle(8); bool huge = kind >= 4; kind &= 3; if (kind == 3) kind = 4;
    const size_t M = 1 << 20; int fd = memfd_create("sim", 0); ftruncate(fd, M); size_t map = (huge ? (size_t)4096 : 512) * M + 2 * M;
    uint8_t *base = (uint8_t *)mmap(nullptr, map, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (size_t o = 0; o < map; o += M) mmap(base + o, M, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0); // the same megabyte over and over
    Rng r(subseed()); uint64_t x = 0x1234; for (size_t i = 0; i < M; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; base[i] = (uint8_t)(x >> 56); }
    size_t total = (huge ? (size_t)1 << 32 : (size_t)1 << 29) + choose(300) - choose(2) * 100; size_t off = 0; uint64_t nupd = 0; bool first = choose(2); size_t even = choose(2) ? 1 + choose(3 * M / 2) : 0; // equal pieces cross the boundary in every phase
    ref::Hash h(kind); for (auto &m : mids) if (m.kind == kind && m.mb == (huge ? 4095u : 511u)) { for (int i = 0; i < 8; i++) { h.s[i] = (uint32_t)m.s[i]; h.q[i] = m.s[i]; } off = h.total = m.mb * M; }
    for (; off < total; off += M) h.add(base, std::min(M, total - off)); Bytes w = h.fin();
    for (bool single : {first, !first}) { // one update call for (nearly) everything, and many
        Dig d(kind); call("init", [&] { d.init(); }); off = 0; nupd = 0;
        if (single) { size_t pre = choose(200); call("update", [&] { d.update(base, pre); d.update(base + pre, total - pre); }); nupd = 2; }
        else call("update", [&] { while (off < total) { size_t n = std::min(total - off, even ? std::max<size_t>(even, 1000) : (size_t)1 + r.below(r.below(4) ? 3 * M / 2 : 300)); d.update(base + off, n); off += n; nupd++; } });
        uint8_t *out = ubuf(d.size()); call("digest", [&] { d.digest(out); });
        ev("long message", kind, total); probe("long-message"); probe(huge ? "bytes-over-2^32" : "bits-over-2^32"); note_time(nupd);
        evb("digest", out, d.size());
        if (memcmp(out, w.data(), w.size())) violation("wrong-digest", "%s of a message of %zu bytes in %llu updates", dig_names[kind], total, (unsigned long long)nupd);
    }
}
#else
namespace {
struct Job {
    Dig d; Bytes msg, want; uint8_t *buf = nullptr; size_t off = 0; unsigned msgs, style = 0; bool open = false, oneshot = false;
    Job(int k, unsigned n) : d(k), msgs(n) {}
};
size_t length()
{
    switch (choose(12)) {
    case 0: return choose(3);
    case 1: case 2: { size_t b = 8u << choose(6); size_t n = b * (1 + choose(3)); unsigned d = choose(5); return n + d > 2 ? n + d - 2 : 0; } // around block and padding boundaries
    case 3: return 55 + choose(3) + 64 * choose(3);
    case 4: return 111 + choose(3) + 128 * choose(3);
    case 5: return 500 + choose(4000);
    case 6: return choose(12) ? choose(700) : long_len();
    default: return choose(300);
    }
}
size_t fragment(unsigned style, size_t left, size_t bs)
{
    switch (style) {
    case 0: return left;
    case 1: return choose(2);
    case 2: return choose(20);
    case 3: return bs;
    case 4: return bs - 1 + choose(3);
    case 5: return choose((uint32_t)bs * 3);
    case 6: return choose(8) ? choose(5) : choose((uint32_t)left + 1);
    default: return choose((uint32_t)left + 1);
    }
}
}
extern "C" void scenario()
{
    unsigned n = 1 + choose(4); std::vector<Job> js; uint64_t t = 0;
    for (unsigned i = 0; i < n; i++) js.emplace_back((int)choose(15), 1 + choose(3));
    size_t left = 0; for (auto &j : js) left += j.msgs;
    size_t live0 = live_blocks();
    while (left) {
        Job &j = js[choose(n)]; Dig &d = j.d; if (!j.msgs) { for (auto &k : js) if (k.msgs) { /* the scheduler only picks runnable producers */ } continue; }
        t++;
        if (!j.open) {
            j.msg = bytes(length()); if (d.keyed() && (d.key.empty() || choose(3))) { d.choose_key(); readonly(d.keybuf, d.key.size()); }
            if (d.keyed() && !d.keybuf) d.set_key(Bytes(d.kind == 8 ? 16 : 0));
            if (j.buf) readonly_drop(j.buf); j.buf = ubuf_copy(j.msg, choose(8)); readonly(j.buf, j.msg.size()); j.off = 0; j.open = true; j.style = choose(8); if (j.msg.size() > 60000 && choose(2)) j.style = 0; if (j.msg.size() > 5000 && (j.style == 1 || j.style == 2)) j.style = 5;
            j.want = d.ref(j.msg); evs("init", dig_names[d.kind]); evb("message", j.msg.data(), j.msg.size()); probe(dig_names[d.kind]);
            if ((j.msg.size() > 60000 ? choose(2) == 1 : choose(10) == 9) && (d.kind < 5 || (d.kind > 8 && d.kind < 13))) { // one-shot function
                uint8_t *o = ubuf(d.size()); Bytes got;
                call("one-shot", [&] { uint32_t v = 0; switch (d.kind) { case 0: cry_md5(o, j.buf, j.msg.size()); break; case 1: cry_sha1(o, j.buf, j.msg.size()); break; case 2: cry_sha256(o, j.buf, j.msg.size()); break; case 3: cry_sha384(o, j.buf, j.msg.size()); break; case 4: cry_sha512(o, j.buf, j.msg.size()); break;
                    case 9: v = cry_crc16_ccitt(j.buf, j.msg.size()); break; case 10: v = cry_crc16_ibm(j.buf, j.msg.size()); break; case 11: v = cry_crc16_dnp(j.buf, j.msg.size()); break; default: v = cry_crc32_eth(j.buf, j.msg.size()); }
                    if (d.kind > 8) for (size_t i = 0; i < d.size(); i++) o[i] = (uint8_t)(v >> (8 * (d.size() - 1 - i))); });
                probe("one-shot"); if (memcmp(o, j.want.data(), d.size())) violation("wrong-digest", "one-shot %s of %zu bytes differs from the standard", dig_names[d.kind], j.msg.size());
                j.open = false; j.msgs--; left--; continue;
            }
            call("init", [&] { d.init(); }); continue;
        }
        if (j.off < j.msg.size() || choose(4) == 3) {
            size_t f = std::min(fragment(j.style, j.msg.size() - j.off, d.kind == 3 || d.kind == 4 ? 128 : d.kind == 8 ? 16 : 64), j.msg.size() - j.off);
            if (!f) probe("empty-update"); ev("update", &j - &js[0], f); call("update", [&] { d.update(j.buf + j.off, f); }); j.off += f; continue;
        }
        uint8_t *o = ubuf(d.size(), choose(8));
        if (d.kind > 8 && choose(2)) { uint32_t v = call("final", [&] { return d.is16() ? (uint32_t)cry_crc16_final((cry_crc16_ctx *)d.inner) : cry_crc32_final((cry_crc32_ctx *)d.inner); }); for (size_t i = 0; i < d.size(); i++) o[i] = (uint8_t)(v >> (8 * (d.size() - 1 - i))); }
        else call("digest", [&] { d.digest(o); });
        evb("digest", o, d.size());
        if (memcmp(o, j.want.data(), d.size())) violation("wrong-digest", "%s of %zu bytes (fragmentation style %u, %u contexts interleaved) differs from the standard", dig_names[d.kind], j.msg.size(), j.style, n);
        j.open = false; j.msgs--; left--;
    }
    if (live_blocks() != live0) violation("leak", "blocks allocated by digests");
    note_time(t);
}
#endif

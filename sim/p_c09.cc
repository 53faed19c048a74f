// C09: authenticated traffic. GCM records (IV, additional data, ciphertext, tag) and AES-wrapped keys cross a network
// that corrupts, truncates, reorders and cross-delivers them; the receiver recomputes the tag in its own segmentation.
#include "sym.h"
#include <sys/mman.h>
#include <unistd.h>
using namespace sim;
extern "C" const char *scenario_real_components() { return ""; }
#ifdef VARIANT_big
// more than 2^32 bits of additional data or ciphertext: the length block of the tag must not wrap.
// All-zero data keeps GHASH at zero, so the reference value is a closed form.
extern "C" void scenario()
{
    bool ct = choose_cycle(2); Bytes key = bytes(16), iv = bytes(12); size_t total = ((size_t)1 << 29) + 16 * choose(9), M = 1 << 20; Rng r(subseed());
    Ciph c(GCM, 0); c.key = key; c.iv = iv; uint8_t *kb = ubuf_copy(key), *vb = ubuf_copy(iv), *tag = ubuf(16); uint8_t *z = (uint8_t *)mmap(nullptr, M, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), *o = (uint8_t *)mmap(nullptr, M, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    call("setup", [&] { c.init(); c.key_set(kb, 16); c.iv_set(vb, 12); }); size_t off = 0;
    call("data", [&] { while (off < total) { size_t n = std::min(total - off, M - 16 * (size_t)r.below(100)); if (ct) cry_gcm_decrypt((cry_gcm_ctx *)c.outer, o, z, n); else cry_gcm_update((cry_gcm_ctx *)c.outer, z, n); off += n; } });
    call("digest", [&] { cry_gcm_digest((cry_gcm_ctx *)c.outer, tag, 16); });
    typedef ref::Gcm G; ref::Bc b(0, key); uint8_t h[16] = {0}, j[16] = {0}, e[16], w[16]; b.enc(h, h); memcpy(j, iv.data(), 12); j[15] = 1; b.enc(e, j); G::u128 H = G::ld(h); G::st(w, G::lens(H, 0, ct ? 0 : total, ct ? total : 0) ^ G::ld(e));
    ev("long record", ct, total); evb("tag", tag, 16); probe(ct ? "gcm-long-ciphertext" : "gcm-long-aad"); note_time(off / M);
    if (memcmp(tag, w, 16)) violation("wrong-tag", "tag over %zu bytes of %s differs from the standard", total, ct ? "ciphertext" : "additional data");
}
#else
namespace {
struct Rec { Bytes key, iv, aad, ct, tag; bool operator==(const Rec &o) const { return key == o.key && iv == o.iv && aad == o.aad && ct == o.ct; } };
Bytes cut(const Bytes &b, size_t n) { return Bytes(b.begin(), b.begin() + n); }
// feeds data in legal segments: multiples of 16 but for the last one; empty ones anywhere
template <class F> void feed(const Bytes &d, F f)
{
    size_t off = 0; unsigned style = choose(5); if (d.empty()) { if (choose(2)) f(0, 0); return; }
    while (off < d.size()) {
        size_t left = d.size() - off, n; switch (style) { case 0: n = left; break; case 1: n = 16; break; case 2: n = 16 * choose(4); break; case 3: n = choose((uint32_t)left + 1); break; default: n = choose(3) ? 16 * choose(9) : left; }
        if (n < left) n -= n % 16; else n = left;
        f(off, n); off += n;
    }
}
// runs the library over (key, iv, aad, in); returns output and checks tag bytes against the definition
Bytes gcm_run(Ciph &c, const Rec &r, const Bytes &in, bool enc, Bytes &tag, bool fresh, bool rekey)
{
    c.key = r.key; c.iv = r.iv;
    if (fresh) call("gcm_init", [&] { c.init(); });
    if (fresh || rekey) { uint8_t *k = ubuf_copy(r.key, choose(8)); call("gcm_key_set", [&] { c.key_set(k, r.key.size()); }); }
    uint8_t *v = ubuf_copy(r.iv, choose(8)); readonly(v, r.iv.size()); call("gcm_iv_set", [&] { c.iv_set(v, r.iv.size()); }); readonly_drop(v);
    uint8_t *a = ubuf_copy(r.aad, choose(8)); readonly(a, r.aad.size()); feed(r.aad, [&](size_t o, size_t n) { ev("aad", n); call("gcm_update", [&] { cry_gcm_update((cry_gcm_ctx *)c.outer, a + o, n); }); }); readonly_drop(a);
    Bytes out(in.size());
    feed(in, [&](size_t o, size_t n) {
        uint8_t *s = ubuf_copy(Bytes(in.begin() + o, in.begin() + o + n), choose(8)); bool ip = choose(2); uint8_t *d = ip ? s : ubuf(n, choose(8)); if (!ip) readonly(s, n);
        ev(enc ? "encrypt" : "decrypt", n, ip); call("gcm_crypt", [&] { c.crypt(enc, d, s, n); }); memcpy(out.data() + o, d, n); if (!ip) readonly_drop(s);
    });
    size_t ts = choose(3) ? 16 : choose(17); uint8_t *t = ubuf(ts, choose(8)); call("gcm_digest", [&] { cry_gcm_digest((cry_gcm_ctx *)c.outer, t, ts); }); tag.assign(t, t + ts); evb("tag", t, ts);
    ref::Bc b(0, r.key); ref::Gcm g(b, r.iv, r.aad, in, enc); // reference over exactly what this side saw
    if (out != g.ct) violation(enc ? "wrong-ciphertext" : "wrong-plaintext", "GCM output differs from the standard (%zu bytes)", in.size());
    if (tag != cut(g.tag, ts)) violation("wrong-tag", "GCM tag differs from the standard (aad %zu, text %zu, iv %zu bytes)", r.aad.size(), in.size(), r.iv.size());
    return out;
}
size_t len(size_t mx) { if (choose(200) == 199) { probe("long-message"); return long_len(); } switch (choose(5)) { case 0: return choose(2); case 1: return 16 * choose(5); case 2: return 16 * choose(5) + choose(3); default: return choose((uint32_t)mx); } }
void gcm()
{
    Ciph tx(GCM, 0), rx(GCM, 0); Bytes key = bytes(16 + 8 * choose(3)); unsigned n = 1 + choose(4); std::vector<Rec> sent; bool f1 = true, f2 = true; uint64_t t = 0; Bytes rxkey;
    for (unsigned i = 0; i < n; i++) {
        Rec r; bool rk = i && choose(5) == 0; if (rk) key = neighbour(key, bytes(16 + 8 * choose(3))); r.key = key; tx.key = key; tx.choose_iv(); r.iv = tx.iv; r.aad = bytes(len(100)); Bytes pt = bytes(len(300)); Bytes st;
        bool fresh = f1 || choose(4) == 0; r.ct = gcm_run(tx, r, pt, true, st, fresh, rk); f1 = false; { ref::Bc b(0, key); r.tag = ref::Gcm(b, r.iv, r.aad, pt, true).tag; } sent.push_back(r); probe("gcm-record");
        unsigned nd = 1 + choose(3);
        for (unsigned k = 0; k < nd; k++) {
            t++; Rec d = sent[choose((uint32_t)sent.size())]; const Rec orig = d; const Rec &o = sent[choose((uint32_t)sent.size())];
            switch (choose(11)) {
            case 0: case 1: probe("net:intact"); break;
            case 2: if (!d.ct.empty()) d.ct[choose((uint32_t)d.ct.size())] ^= (uint8_t)(1u << choose(8)); probe("corrupt:ciphertext"); break;
            case 3: if (!d.aad.empty()) d.aad[choose((uint32_t)d.aad.size())] ^= (uint8_t)(1u << choose(8)); probe("corrupt:aad"); break;
            case 4: d.iv[choose((uint32_t)d.iv.size())] ^= (uint8_t)(1u << choose(8)); probe("corrupt:iv"); break;
            case 5: d.key[choose((uint32_t)d.key.size())] ^= (uint8_t)(1u << choose(8)); probe("corrupt:key"); break;
            case 6: d.ct.resize(choose((uint32_t)d.ct.size() + 1)); probe("corrupt:truncated"); break;
            case 7: d.ct.insert(d.ct.end(), 1 + choose(20), 0); probe("corrupt:extended"); break;
            case 8: d.aad.insert(d.aad.end(), 1 + choose(20), 0); probe("corrupt:extended"); break;
            case 9: { Bytes all = ref::cat(d.aad, d.ct); size_t s = choose((uint32_t)all.size() + 1); d.aad = cut(all, s); d.ct = Bytes(all.begin() + s, all.end()); probe("corrupt:boundary"); break; }
            default: if (choose(2)) d.aad = o.aad; else d.ct = o.ct; d.tag = orig.tag; probe("net:cross-delivered");
            }
            Bytes rt; bool rf = f2 || choose(4) == 0, rk2 = rxkey != d.key; gcm_run(rx, d, d.ct, false, rt, rf, rk2); f2 = false; rxkey = d.key;
            bool same = d == orig; if (rt.size() >= 12 && (rt == cut(orig.tag, rt.size())) != same) violation(same ? "valid-rejected" : "corruption-undetected", "tag %s although the record %s", same ? "differs" : "agrees", same ? "is intact" : "was changed");
            probe(same ? "gcm-accepted" : "gcm-rejected");
        }
    }
    note_time(t);
}
void wrap()
{
    unsigned n = 1 + choose(3); std::vector<std::array<Bytes, 3>> sent; uint64_t t = 0; // kek, key, wrapped
    for (unsigned i = 0; i < n; i++) {
        Bytes kek = i && choose(2) ? sent[0][0] : bytes(16 + 8 * choose(3)); size_t blks = 2 + (choose(4) ? choose(8) : choose(6) ? choose(100) : choose(8) ? choose(700) : 10900 + choose(60)); Bytes p = bytes(8 * blks);
        uint8_t *kb = ubuf_copy(kek, choose(8)), *pb = ubuf_copy(p, choose(8)), *o = ubuf(p.size() + 8, choose(8)); readonly(kb, kek.size()); readonly(pb, p.size()); evb("kek", kek.data(), kek.size()); ev("wrap", p.size());
        int r = call("cry_aes_wrap", [&] { return cry_aes_wrap(o, pb, p.size(), kb, kek.size()); }); readonly_drop(kb); readonly_drop(pb); probe("wrap"); if (blks * 6 > 255) probe("wrap-steps-over-8-bits"); if (blks * 6 > 65535) probe("wrap-steps-over-16-bits");
        if (r) violation("spurious-error", "cry_aes_wrap returned %d", r); Bytes w(o, o + p.size() + 8); if (w != ref::wrap(kek, p)) violation("wrong-wrap", "wrapping %zu bytes differs from RFC 3394", p.size());
        sent.push_back({kek, p, w});
        unsigned nd = 1 + choose(4);
        for (unsigned k = 0; k < nd; k++) {
            t++; auto &s = sent[choose((uint32_t)sent.size())]; Bytes kk = s[0], ww = s[2];
            switch (choose(9)) {
            case 0: case 1: probe("net:intact"); break;
            case 2: ww[choose((uint32_t)ww.size())] ^= (uint8_t)(1u << choose(8)); probe("corrupt:bit"); break;
            case 3: kk[choose((uint32_t)kk.size())] ^= (uint8_t)(1u << choose(8)); probe("corrupt:kek"); break;
            case 4: { size_t nb = ww.size() / 8, a = choose((uint32_t)nb), b = choose((uint32_t)nb); for (int z = 0; z < 8; z++) std::swap(ww[8 * a + z], ww[8 * b + z]); probe("corrupt:reordered"); break; }
            case 5: if (ww.size() > 24) ww.resize(24 + 8 * choose((uint32_t)(ww.size() - 24) / 8)); probe("corrupt:truncated"); break;
            case 6: ww.insert(ww.end(), 8, (uint8_t)choose(2)); probe("corrupt:extended"); break;
            case 7: { // integrity value right but for one bit, or two bytes whose differences cancel: made with another initial value
                ref::Aes c(kk); Bytes r2 = s[1]; uint8_t a[8]; memset(a, 0xa6, 8); unsigned i = choose(8), j2 = choose(8); uint8_t bit = (uint8_t)(1u << choose(8)); switch (choose(4)) { case 0: case 1: a[i] ^= bit; break; case 2: a[i] ^= bit; a[(i + 1 + j2 % 7) % 8] ^= bit; break; default: a[i] += bit; a[(i + 1 + j2 % 7) % 8] -= bit; } size_t m = r2.size() / 8;
                for (int j = 0; j < 6; j++) for (size_t x = 0; x < m; x++) { uint8_t b[16]; memcpy(b, a, 8); memcpy(b + 8, &r2[8 * x], 8); c.enc(b, b); uint64_t st = m * j + x + 1; memcpy(a, b, 8); for (int z = 0; z < 8; z++) a[z] ^= (uint8_t)(st >> (56 - 8 * z)); memcpy(&r2[8 * x], b + 8, 8); }
                ww.assign(a, a + 8); ww = ref::cat(ww, r2); probe("corrupt:integrity-value"); break; }
            default: { Bytes &o2 = sent[choose((uint32_t)sent.size())][0]; kk = o2; probe("net:cross-delivered"); }
            }
            size_t L = ww.size() - 8; Bytes want; bool ok = ref::unwrap(kk, ww, want); uint8_t *kb2 = ubuf_copy(kk, choose(8)), *wb = ubuf_copy(ww, choose(8)), *ob = ubuf(L, choose(8)); readonly(kb2, kk.size()); readonly(wb, ww.size());
            int r2 = call("cry_aes_unwrap", [&] { return cry_aes_unwrap(ob, wb, L, kb2, kk.size()); }); ev("unwrap", r2 != 0, ok); probe(ok ? "unwrap-accepted" : "unwrap-rejected"); readonly_drop(kb2); readonly_drop(wb);
            if (ok && r2) violation("valid-rejected", "cry_aes_unwrap returned %d for an intact %zu-byte key", r2, L);
            if (!ok && !r2) violation("corruption-undetected", "cry_aes_unwrap accepted a damaged %zu-byte key", L);
            if (ok && memcmp(ob, want.data(), L)) violation("wrong-key", "unwrapped key differs from the original");
            if (!ok) for (auto &x : sent) for (size_t z = 0; z + 8 <= std::min(L, x[1].size()); z += 8) { bool zero = true; for (int q = 0; q < 8; q++) zero &= x[1][z + q] == 0; if (!zero && L >= 8 && memcmp(ob + z, &x[1][z], 8) == 0) violation("key-leaked", "cry_aes_unwrap rejected the data but left key bytes in the buffer"); }
            if (!ok) { Bytes dec; ref::unwrap_raw(kk, ww, dec); for (size_t z = 0; z + 8 <= L; z += 8) { bool zero = true; for (int q = 0; q < 8; q++) zero &= dec[z + q] == 0; if (!zero && memcmp(ob + z, &dec[z], 8) == 0) violation("key-leaked", "cry_aes_unwrap rejected the data but left the unwrapped bytes in the buffer"); } }
        }
    }
    note_time(t);
}
}
extern "C" void scenario() { if (choose(2)) wrap(); else gcm(); }
#endif

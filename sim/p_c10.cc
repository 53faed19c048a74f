// C10: the two process-wide generators are initialised, drawn from, abandoned and initialised again, in any order, with
// user contexts working in between; every byte is compared with a model that knows only the seed and the draws.
#include "sym.h"
extern "C" {
#include <cry/prng.h>
}
using namespace sim;
extern "C" const char *scenario_real_components() { return ""; }
namespace {
struct AesModel { // AES-128 in counter mode over the (zero padded) seed
    ref::Aes *a = nullptr; uint8_t ctr[16], blk[16]; unsigned ix = 16;
    void init(const Bytes &s) { Bytes k(16, 0); for (size_t i = 0; i < 16 && i < s.size(); i++) k[i] = s[i]; a = new ref::Aes(k); memset(ctr, 0, 16); for (size_t i = 16; i < 32 && i < s.size(); i++) ctr[i - 16] = s[i]; ix = 16; }
    uint8_t get() { if (!a) init({}); if (ix == 16) { a->enc(blk, ctr); for (int i = 15; i >= 0 && !++ctr[i]; i--) ; ix = 0; } return blk[ix++]; }
};
struct LfsrModel {
    uint64_t z[4]; bool on = false;
    void init(const Bytes &s) { uint8_t f[16] = {0}; for (size_t i = 0; i < s.size(); i++) f[i % 16] ^= s[i]; static const uint32_t min[4] = {2, 8, 16, 128}; for (int i = 0; i < 4; i++) { z[i] = f[4 * i] | f[4 * i + 1] << 8 | f[4 * i + 2] << 16 | (uint64_t)f[4 * i + 3] << 24; if (z[i] < min[i]) z[i] = 987654321; } on = true; }
    uint32_t word() {
        if (!on) init({});
        static const int q[4] = {6, 2, 13, 3}, r[4] = {13, 27, 21, 12}, k[4] = {1, 3, 4, 7}, s[4] = {18, 2, 7, 13}; uint64_t o = 0;
        for (int i = 0; i < 4; i++) { uint64_t t = ((z[i] << q[i] ^ z[i]) & 0xffffffff) >> r[i]; z[i] = (((z[i] >> k[i] << k[i]) << s[i]) & 0xffffffff) ^ t; o ^= z[i]; }
        return (uint32_t)o;
    }
    Bytes draw(size_t n) { Bytes o; while (o.size() < n) { uint32_t w = word(); for (int i = 3; i >= 0 && o.size() < n; i--) o.push_back((uint8_t)(w >> 8 * i)); } return o; }
};
}
extern "C" void scenario()
{
    AesModel am; LfsrModel lm; unsigned steps = 4 + choose(30); uint64_t total = 0; Bytes last[2]; size_t live0 = live_blocks(); bool inited[2] = {false, false};
    Ciph *user = nullptr; // a context of the caller, in use all the time
    for (unsigned i = 0; i < steps; i++) {
        unsigned g = choose(3) == 2; static const char *gn[2] = {"aes", "lfsr113"};
        unsigned what = choose(10);
        if (what < 3) { // (re)initialise
            Bytes s; bool null = false;
            switch (choose(8)) {
            case 0: null = true; break;
            case 1: s = bytes(choose(16)); break;
            case 2: s = bytes(16 + choose(17)); break;
            case 3: s = bytes(choose(40) == 39 ? long_len() : 33 + choose(40)); break;
            case 4: s = last[g]; if (!s.empty()) probe("same-seed-again"); break;
            case 5: case 6: { s = bytes(32); size_t k = 1 + choose(16); memset(&s[32 - k], 0xff, k); s[31] = (uint8_t)(0xff - choose(40)); probe("seed-with-counter-carry"); } break;
            default: s = bytes(16 * (1 + choose(3))); if (g && choose(2)) { for (size_t j = 0; j < s.size(); j++) if (j % 4) s[j] = 0; for (size_t j = 0; j < s.size(); j += 4) s[j] &= 0xff >> choose(8); probe("lfsr-low-seed"); }
            }
            if (choose(2)) last[g] = s;
            evs("init", gn[g]); evb("seed", s.data(), s.size()); uint8_t *b = null ? nullptr : ubuf_copy(s, choose(8)); if (b) readonly(b, s.size());
            int r = call("prng init", [&] { return g ? cry_prng_lfsr113_init(b, s.size()) : cry_prng_aes_init(b, s.size()); });
            if (r) violation("init-failed", "%s init with %zu seed bytes returned %d", gn[g], s.size(), r);
            if (b) { readonly_drop(b); if (choose(2)) garbage(b, s.size()); } // the seed buffer is the caller's: it may be wiped afterwards
            g ? lm.init(s) : am.init(s); probe(inited[g] ? "re-init" : "init"); inited[g] = true;
        } else if (what < 9) { // draw
            size_t n; switch (choose(7)) { case 0: n = choose(4); break; case 1: n = 16 * choose(4); break; case 2: n = 15 + choose(3); break; case 3: n = 100 + choose(400); break; case 4: n = choose(40) == 39 ? 65000 + choose(5000) : choose(12) ? choose(64) : 4000 + choose(cfg.thorough ? 200000 : 9000); break; default: n = 1 + choose(40); }
            if (!inited[g]) probe("draw-before-init");
            uint8_t *b = ubuf(n, choose(4) ? 0 : choose(16)); evs("draw", gn[g]); ev("bytes", n);
            int r = call("prng rand", [&] { return g ? cry_prng_lfsr113_rand(b, n) : cry_prng_aes_rand(b, n); });
            if (r) violation("draw-failed", "%s rand of %zu bytes returned %d", gn[g], n, r);
            Bytes w; if (g) w = lm.draw(n); else for (size_t j = 0; j < n; j++) w.push_back(am.get());
            for (size_t j = 0; j < n; j++) if (b[j] != w[j]) violation("wrong-stream", "%s: byte %zu of a draw of %zu (%lu bytes drawn before) is not the one its seed determines", gn[g], j, n, (unsigned long)total);
            total += n; inited[g] = true; probe(g ? "lfsr-bytes" : "aes-bytes", n);
        } else { // the caller's own cipher works in between
            if (!user) { int m, bc; Ciph::pick(m, bc); user = new Ciph(m, bc); user->choose_key(); user->choose_iv(); uint8_t *k = ubuf_copy(user->key), *v = ubuf_copy(user->iv); user->init(); user->key_set(k, user->key.size()); if (user->has_iv()) user->iv_set(v, user->iv.size()); probe("user-context"); }
            else { size_t n = user->gran() * (1 + choose(6)); uint8_t *b = ubuf(n); call("crypt", [&] { user->crypt(true, b, b, n); }); }
        }
    }
    if (live_blocks() != live0) violation("leak", "generators leak %ld block(s)", (long)live_blocks() - (long)live0);
    note_time(total);
}

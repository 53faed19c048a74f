// Uniform wrappers over the library's digests, MACs, CRCs, cipher modes and stream ciphers, each with its reference.
#pragma once
#include "sim.h"
#include "ref.h"
#include <stddef.h>
#include <stdint.h>
extern "C" {
#include <cry/md5.h>
#include <cry/sha1.h>
#include <cry/sha256.h>
#include <cry/sha512.h>
#include <cry/hmac.h>
#include <cry/cmac.h>
#include <cry/crc.h>
#include <cry/aes.h>
#include <cry/des.h>
#include <cry/cbc.h>
#include <cry/cfb.h>
#include <cry/ctr.h>
#include <cry/gcm.h>
#include <cry/arc4.h>
#include <cry/trivium.h>
#include <cry/utils.h>
}
typedef ref::B Bytes;
static void s384_init(void *c) { cry_sha512_init((cry_sha512_ctx *)c, 1); }
static void s512_init(void *c) { cry_sha512_init((cry_sha512_ctx *)c, 0); }
#define HITF(n) {(cry_hash_init_f)cry_##n##_init, (cry_hash_clear_f)cry_##n##_clear, (cry_hash_update_f)cry_##n##_update, (cry_hash_digest_f)cry_##n##_digest}
static const cry_hash_itf hash_itfs[5] = {HITF(md5), HITF(sha1), HITF(sha256),
    {s384_init, (cry_hash_clear_f)cry_sha512_clear, (cry_hash_update_f)cry_sha512_update, (cry_hash_digest_f)cry_sha512_digest},
    {s512_init, (cry_hash_clear_f)cry_sha512_clear, (cry_hash_update_f)cry_sha512_update, (cry_hash_digest_f)cry_sha512_digest}};
#define CITF(n) {(cry_ciph_init_f)cry_##n##_init, (cry_ciph_clear_f)cry_##n##_clear, (cry_ciph_key_set_f)cry_##n##_key_set, (cry_ciph_encrypt_f)cry_##n##_encrypt, (cry_ciph_decrypt_f)cry_##n##_decrypt}
static const cry_ciph_itf aes_itf = CITF(aes), des_itf = CITF(des);
static const size_t hash_ctx_size[5] = {sizeof(cry_md5_ctx), sizeof(cry_sha1_ctx), sizeof(cry_sha256_ctx), sizeof(cry_sha512_ctx), sizeof(cry_sha512_ctx)};
static const char *dig_names[15] = {"md5", "sha1", "sha256", "sha384", "sha512", "hmac-md5", "hmac-sha1", "hmac-sha256", "cmac-aes", "crc16-ccitt", "crc16-ibm", "crc16-dnp", "crc32-eth", "crc16-custom", "crc32-custom"};

// the value used last again, or one bit off it, now and then: shortcuts for repeated keys must compare all of them
static inline Bytes neighbour(const Bytes &old, Bytes fresh)
{
    if (old.empty() || sim::choose(5) != 4) return fresh;
    fresh = old; if (sim::choose(3)) fresh[sim::choose((uint32_t)old.size())] ^= (uint8_t)(1u << sim::choose(8)); sim::probe("neighbouring-key"); return fresh;
}
struct Dig { // a digest, MAC or CRC computation in caller memory
    int kind; void *inner = nullptr, *outer = nullptr; Bytes key; uint8_t *keybuf = nullptr;
    uint32_t poly = 0, start = 0; unsigned flags = 0; uint16_t *tab16 = nullptr; uint32_t *tab32 = nullptr; // the caller's own CRC
    bool is16() const { return (kind > 8 && kind < 12) || kind == 13; }
    size_t size() const { return kind < 5 ? ref::Hash::len(kind) : kind < 8 ? ref::Hash::len(kind - 5) : kind == 8 ? 16 : is16() ? 2 : 4; }
    explicit Dig(int k) : kind(k) {
        if (k < 5) inner = sim::ubuf(hash_ctx_size[k]);
        else if (k < 8) { inner = sim::ubuf(hash_ctx_size[k - 5]); outer = sim::ubuf(sizeof(cry_hmac_ctx)); }
        else if (k == 8) { inner = sim::ubuf(sizeof(cry_aes_ctx)); outer = sim::ubuf(sizeof(cry_cmac_ctx)); }
        else inner = sim::ubuf(is16() ? sizeof(cry_crc16_ctx) : sizeof(cry_crc32_ctx));
        if (k >= 13) {
            sim::Rng g(sim::subseed()); uint32_t mask = is16() ? 0xffff : 0xffffffffu; poly = (uint32_t)g.next() & mask; start = (uint32_t)g.next() & mask; flags = sim::choose(4);
            void *t = sim::ubuf(256 * size()); tab16 = (uint16_t *)t; tab32 = (uint32_t *)t;
            for (int i = 0; i < 256; i++) { uint32_t v = ref::crc_raw(poly, 0, Bytes(1, (uint8_t)i)); if (is16()) tab16[i] = (uint16_t)v; else tab32[i] = v; }
            sim::readonly(t, 256 * size());
        }
    }
    size_t inner_size() const { return kind < 5 ? hash_ctx_size[kind] : kind < 8 ? hash_ctx_size[kind - 5] : kind == 8 ? sizeof(cry_aes_ctx) : is16() ? sizeof(cry_crc16_ctx) : sizeof(cry_crc32_ctx); }
    size_t outer_size() const { return kind >= 5 && kind < 8 ? sizeof(cry_hmac_ctx) : kind == 8 ? sizeof(cry_cmac_ctx) : 0; }
    bool keyed() const { return kind >= 5 && kind <= 8; }
    void choose_key() {
        if (!keyed()) return; size_t n;
        if (kind == 8) n = 16 + 8 * sim::choose(3); else { unsigned c = sim::choose(5); n = c == 0 ? sim::choose(4) : c == 1 ? 63 + sim::choose(3) : c == 2 ? 64 : sim::choose(60) == 59 ? sim::long_len() : sim::choose(200); }
        set_key(neighbour(key, sim::bytes(n)));
    }
    void set_key(const Bytes &k) { key = k; keybuf = sim::ubuf_copy(key); }
    void init() {
        switch (kind) {
        case 0: case 1: case 2: case 3: case 4: hash_itfs[kind].init(inner); break;
        case 5: case 6: case 7: cry_hmac_init((cry_hmac_ctx *)outer, inner, &hash_itfs[kind - 5], size(), keybuf, key.size()); break;
        case 8: cry_cmac_init((cry_cmac_ctx *)outer, inner, &aes_itf, keybuf, key.size()); break;
        case 9: cry_crc16_ccitt_init((cry_crc16_ctx *)inner); break;
        case 10: cry_crc16_ibm_init((cry_crc16_ctx *)inner); break;
        case 11: cry_crc16_dnp_init((cry_crc16_ctx *)inner); break;
        case 12: cry_crc32_eth_init((cry_crc32_ctx *)inner); break;
        case 13: cry_crc16_init((cry_crc16_ctx *)inner, (uint16_t)start, tab16, (unsigned char)flags); break;
        default: cry_crc32_init((cry_crc32_ctx *)inner, start, tab32, (unsigned char)flags);
        }
    }
    void update(const uint8_t *p, size_t n) {
        if (kind < 5) hash_itfs[kind].update(inner, p, n); else if (kind < 8) cry_hmac_update((cry_hmac_ctx *)outer, p, n); else if (kind == 8) cry_cmac_update((cry_cmac_ctx *)outer, p, n);
        else if (is16()) cry_crc16_update((cry_crc16_ctx *)inner, p, n); else cry_crc32_update((cry_crc32_ctx *)inner, p, n);
    }
    void digest(uint8_t *o) {
        if (kind < 5) hash_itfs[kind].digest(inner, o); else if (kind < 8) cry_hmac_digest((cry_hmac_ctx *)outer, o); else if (kind == 8) cry_cmac_digest((cry_cmac_ctx *)outer, o);
        else if (is16()) cry_crc16_digest((cry_crc16_ctx *)inner, o); else cry_crc32_digest((cry_crc32_ctx *)inner, o);
    }
    Bytes ref(const Bytes &m) const {
        if (kind < 5) return ref::hash(kind, m); if (kind < 8) return ref::hmac(kind - 5, key, m);
        if (kind == 8) { ref::Bc c(0, key); return ref::cmac(c, m); }
        uint32_t v = kind < 13 ? ref::crc(kind - 9, m) : ref::crc_raw(poly, start, m);
        if (kind >= 13) { uint32_t mask = is16() ? 0xffff : 0xffffffffu; if (flags & CRY_CRC_FLAG_COMPLEMENT) v = ~v & mask; if (flags & CRY_CRC_FLAG_SWAP) v = is16() ? (v >> 8 | v << 8) & 0xffff : __builtin_bswap32(v); }
        Bytes o; for (int s = is16() ? 8 : 24; s >= 0; s -= 8) o.push_back((uint8_t)(v >> s)); return o;
    }
};

// ---- ciphers ----------------------------------------------------------------------------------------------
enum Mode { ECB, CBC, CFB, CFB8, CTR, GCM, ARC4, TRIV, NMODES };
static const char *mode_names[NMODES] = {"ecb", "cbc", "cfb", "cfb8", "ctr", "gcm", "arc4", "trivium"};
static inline Bytes gcm_iv_for(const Bytes &key, const Bytes &j0) // 16-byte IV whose pre-counter block is j0
{
    typedef ref::Gcm G; ref::Bc c(0, key); uint8_t z[16] = {0}; c.enc(z, z); G::u128 h = G::ld(z), inv = h, s = h;
    // h^(2^128-2)
    G::u128 r = 0; bool have = false; for (int i = 1; i < 128; i++) { s = G::mul(s, s); r = have ? G::mul(r, s) : s; have = true; }
    inv = r; G::u128 v = G::ld(j0.data()), len = (G::u128)128; v = G::mul(G::mul(v, inv) ^ len, inv); Bytes o(16); G::st(o.data(), v); return o;
}
struct Ciph {
    int mode, bc; void *inner, *outer = nullptr; Bytes key, iv, aad; bool shared = false;
    static size_t outer_size_of(int m) { switch (m) { case CBC: return sizeof(cry_cbc_ctx); case CFB: case CFB8: return sizeof(cry_cfb_ctx); case CTR: return sizeof(cry_ctr_ctx); case GCM: return sizeof(cry_gcm_ctx); default: return 0; } }
    static size_t inner_size_of(int m, int b) { return m == ARC4 ? sizeof(cry_arc4_ctx) : m == TRIV ? sizeof(cry_trivium_ctx) : b ? sizeof(cry_des_ctx) : sizeof(cry_aes_ctx); }
    Ciph(int m, int b, void *share = nullptr) : mode(m), bc(b) { inner = share ? share : sim::ubuf(inner_size()); shared = share; if (outer_size()) outer = sim::ubuf(outer_size()); }
    size_t inner_size() const { return inner_size_of(mode, bc); }
    size_t outer_size() const { return outer_size_of(mode); }
    size_t bs() const { return bc ? 8 : 16; }
    size_t gran() const { return mode == CFB8 || mode == ARC4 ? 1 : mode == TRIV ? 4 : bs(); }
    bool partial_last() const { return mode != CBC && mode != ECB; }
    bool has_iv() const { return mode != ECB && mode != ARC4; }
    void choose_key() {
        using namespace sim; size_t n;
        if (mode == ARC4) n = choose(4) ? 1 + choose(32) : 1 + choose(256); else if (mode == TRIV) n = choose(4) ? 10 : choose(11); else if (bc) n = choose(2) ? 24 : 8; else n = 16 + 8 * choose(3);
        if ((mode == TRIV || (bc && mode != ARC4)) && choose(24) == 23) { n = (mode == TRIV ? 11 : 25) + choose(16); probe("oversize-key"); } // the excess bytes are ignored
        key = neighbour(key, bytes(n));
    }
    void choose_iv() {
        using namespace sim; if (!has_iv()) return;
        if (!iv.empty() && choose(6) == 5) { if (choose(2)) iv[choose((uint32_t)iv.size())] ^= (uint8_t)(1u << choose(8)); probe("neighbouring-iv"); return; } // the last one again, or one bit off
        if (mode == TRIV) { iv = bytes(choose(4) ? 10 : choose(8) ? choose(11) : 11 + choose(16)); return; }
        if (mode == GCM) {
            switch (choose(4)) { case 0: iv = bytes(12); break; case 1: iv = bytes(choose(40) == 39 ? long_len() : 1 + choose(40)); break; case 2: iv = bytes(16); break;
            default: { Bytes j = bytes(16); memset(&j[12], 0xff, 4); j[15] = (uint8_t)(0xff - choose(8)); iv = gcm_iv_for(key, j); probe("gcm-counter-wrap"); } }
            return;
        }
        iv = bytes(bs());
        if (mode == CTR && choose(2)) { size_t k = 1 + choose((uint32_t)bs()); memset(&iv[bs() - k], 0xff, k); iv[bs() - 1] = (uint8_t)(0xff - choose(6)); probe("ctr-carry"); }
    }
    const cry_ciph_itf *itf() const { return bc ? &des_itf : &aes_itf; }
    void init() {
        switch (mode) {
        case ECB: itf()->init(inner); break;
        case CBC: cry_cbc_init((cry_cbc_ctx *)outer, inner, itf()); break;
        case CFB: case CFB8: cry_cfb_init((cry_cfb_ctx *)outer, inner, itf()); break;
        case CTR: cry_ctr_init((cry_ctr_ctx *)outer, inner, itf()); break;
        case GCM: cry_gcm_init((cry_gcm_ctx *)outer, inner, itf()); break;
        case ARC4: cry_arc4_init((cry_arc4_ctx *)inner); break;
        default: cry_trivium_init((cry_trivium_ctx *)inner);
        }
    }
    void key_set(const uint8_t *k, size_t n) {
        switch (mode) {
        case ECB: itf()->key_set(inner, k, n); break;
        case CBC: cry_cbc_key_set((cry_cbc_ctx *)outer, k, n); break;
        case CFB: case CFB8: cry_cfb_key_set((cry_cfb_ctx *)outer, k, n); break;
        case CTR: cry_ctr_key_set((cry_ctr_ctx *)outer, k, n); break;
        case GCM: cry_gcm_key_set((cry_gcm_ctx *)outer, k, n); break;
        case ARC4: cry_arc4_key_set((cry_arc4_ctx *)inner, k, n); break;
        default: cry_trivium_key_set((cry_trivium_ctx *)inner, k, n);
        }
    }
    void iv_set(const uint8_t *k, size_t n) {
        switch (mode) {
        case CBC: cry_cbc_iv_set((cry_cbc_ctx *)outer, k, n); break;
        case CFB: case CFB8: cry_cfb_iv_set((cry_cfb_ctx *)outer, k, n); break;
        case CTR: cry_ctr_iv_set((cry_ctr_ctx *)outer, k, n); break;
        case GCM: cry_gcm_iv_set((cry_gcm_ctx *)outer, k, n); break;
        case TRIV: cry_trivium_iv_set((cry_trivium_ctx *)inner, k, n); break;
        }
    }
    void crypt(bool enc, uint8_t *d, const uint8_t *s, size_t n) {
        switch (mode) {
        case ECB: if (enc) itf()->encrypt(inner, d, s, n); else itf()->decrypt(inner, d, s, n); break;
        case CBC: if (enc) cry_cbc_encrypt((cry_cbc_ctx *)outer, d, s, n); else cry_cbc_decrypt((cry_cbc_ctx *)outer, d, s, n); break;
        case CFB: if (enc) cry_cfb_encrypt((cry_cfb_ctx *)outer, d, s, n); else cry_cfb_decrypt((cry_cfb_ctx *)outer, d, s, n); break;
        case CFB8: if (enc) cry_cfb8_encrypt((cry_cfb_ctx *)outer, d, s, n); else cry_cfb8_decrypt((cry_cfb_ctx *)outer, d, s, n); break;
        case CTR: if (enc) cry_ctr_encrypt((cry_ctr_ctx *)outer, d, s, n); else cry_ctr_decrypt((cry_ctr_ctx *)outer, d, s, n); break;
        case GCM: if (enc) cry_gcm_encrypt((cry_gcm_ctx *)outer, d, s, n); else cry_gcm_decrypt((cry_gcm_ctx *)outer, d, s, n); break;
        case ARC4: cry_arc4_crypt((cry_arc4_ctx *)inner, d, s, n); break;
        default: cry_trivium_crypt((cry_trivium_ctx *)inner, d, s, n);
        }
    }
    void clear() {
        switch (mode) {
        case ECB: itf()->clear(inner); break;
        case CBC: cry_cbc_clear((cry_cbc_ctx *)outer); break;
        case CFB: case CFB8: cry_cfb_clear((cry_cfb_ctx *)outer); break;
        case CTR: cry_ctr_clear((cry_ctr_ctx *)outer); break;
        case GCM: cry_gcm_clear((cry_gcm_ctx *)outer); break;
        case ARC4: cry_arc4_clear((cry_arc4_ctx *)inner); break;
        default: cry_trivium_clear((cry_trivium_ctx *)inner);
        }
    }
    Bytes ref(const Bytes &p, Bytes *tag = nullptr) const {
        if (mode == ARC4) return ref::arc4(key, p);
        if (mode == TRIV) return ref::trivium(key, iv, p);
        ref::Bc c(bc, key);
        switch (mode) {
        case ECB: { Bytes r(p.size()); for (size_t i = 0; i < p.size(); i += bs()) c.enc(&r[i], &p[i]); return r; }
        case CBC: return ref::cbc_enc(c, iv, p);
        case CFB: return ref::cfb_enc(c, iv, p);
        case CFB8: return ref::cfb8_enc(c, iv, p);
        case CTR: return ref::ctr_crypt(c, iv, p);
        default: { ref::Gcm g(c, iv, aad, p, true); if (tag) *tag = g.tag; return g.ct; }
        }
    }
    static void pick(int &mode, int &bc) { mode = (int)sim::choose(NMODES); bc = mode != GCM && mode != ARC4 && mode != TRIV && sim::choose(3) == 2; }
    std::string name() const { return std::string(mode_names[mode]) + (mode >= ARC4 ? "" : bc ? "-des" : "-aes") + std::to_string(key.size() * 8); }
};
// legal size of the next segment when `left` bytes remain
static inline size_t segment(const Ciph &c, unsigned style, size_t left)
{
    using namespace sim; size_t g = c.gran(), n;
    switch (style) { case 0: n = left; break; case 1: n = g; break; case 2: n = g * choose(4); break; case 3: n = g * choose(40); break; case 4: n = choose(3) ? g * choose(3) : left; break; default: n = choose((uint32_t)left + 1); }
    if (n >= left) return left;
    return n / g * g;
}

// C13: contexts are abandoned at any point, initialised again on whatever the memory holds (the remains of an earlier
// life or of another kind of context), re-keyed, and cleared at any point. Later lives must match the definition, and
// what a cleared context holds must not depend on the keys and messages it worked on.
#include "pk.h"
#include "sym.h"
using namespace sim;
extern "C" const char *scenario_real_components() { return ""; }
namespace {
uint8_t *mem_a, *mem_b; size_t cap_a, cap_b; // one piece of memory serves all kinds of contexts in turn
enum Sub { DIG, CIPH };
struct Slot { Sub sub; Dig *d = nullptr; Ciph *c = nullptr; bool live = false; };
Slot cur; bool have = false;
void adopt(Slot &s) // contexts live in the shared memory
{
    if (s.d) { s.d->inner = mem_a; if (s.d->outer) s.d->outer = mem_b; } else { s.c->inner = mem_a; if (s.c->outer) s.c->outer = mem_b; }
}
Slot make()
{
    Slot s; if (choose(2)) { s.sub = DIG; s.d = new Dig((int)choose(13)); } else { s.sub = CIPH; int m, b; Ciph::pick(m, b); s.c = new Ciph(m, b); }
    adopt(s); return s;
}
const char *nm(const Slot &s) { static std::string t; t = s.d ? dig_names[s.d->kind] : s.c->name(); return t.c_str(); }
void check_prefix(const Slot &s, const Bytes &got, const Bytes &want, const char *what)
{
    if (memcmp(got.data(), want.data(), got.size())) violation("life-leaks", "%s: %s differs from a fresh context's", nm(s), what);
}
// one message of the given slot, stopped after `stop` calls (or complete)
void message(Slot &s, unsigned stop)
{
    size_t n; switch (choose(4)) { case 0: n = choose(4); break; case 1: n = 55 + choose(20); break; case 2: n = choose(300); break; default: n = 8 * choose(20); }
    if (s.d) {
        Bytes m = bytes(n); size_t off = 0; unsigned st = choose(3), k = 0;
        while (off < n && k++ < stop) { size_t l = st == 0 ? n - off : st == 1 ? choose((uint32_t)(n - off) + 1) : std::min<size_t>(n - off, choose(70)); uint8_t *b = ubuf_copy(Bytes(m.begin() + off, m.begin() + off + l)); call("update", [&] { s.d->update(b, l); }); off += l; if (!l && st) break; }
        ev("digest-input", off, n);
        if (stop < 1000 && choose(2)) { probe("abandoned"); return; }
        m.resize(off); uint8_t *o = ubuf(s.d->size()); call("digest", [&] { s.d->digest(o); }); Bytes w = s.d->ref(m); if (memcmp(o, w.data(), w.size())) violation("life-leaks", "%s of a %zu-byte message after earlier lives in the same memory differs from the definition", nm(s), off);
        probe("complete"); s.live = false; return;
    }
    Ciph &c = *s.c; if (!c.partial_last()) n -= n % c.bs(); Bytes p = bytes(n); c.aad.clear();
    if (c.mode == GCM) { c.aad = bytes(choose(40)); size_t off = 0; while (off < c.aad.size()) { size_t l = choose(2) ? c.aad.size() - off : std::min<size_t>(c.aad.size() - off, 16); uint8_t *b = ubuf_copy(Bytes(c.aad.begin() + off, c.aad.begin() + off + l)); call("cry_gcm_update", [&] { cry_gcm_update((cry_gcm_ctx *)c.outer, b, l); }); off += l; if (stop < 1000 && choose(3) == 0) { probe("abandoned"); return; } } }
    Bytes tag, ct = c.ref(p, &tag); bool enc = choose(2); const Bytes &src = enc ? p : ct, &want = enc ? ct : p; unsigned st = choose(6), k = 0; size_t off = 0;
    while (off < n && k++ < stop) { size_t l = segment(c, st, n - off); uint8_t *b = ubuf_copy(Bytes(src.begin() + off, src.begin() + off + l)); call(enc ? "encrypt" : "decrypt", [&] { c.crypt(enc, b, b, l); }); if (memcmp(b, &want[off], l)) violation("life-leaks", "%s: bytes %zu..%zu of a message differ from the definition after earlier lives in the same memory", nm(s), off, off + l); off += l; }
    ev("cipher-input", off, n);
    if (off < n) { probe("abandoned"); return; }
    if (c.mode == GCM && choose(3)) { uint8_t *t = ubuf(16); call("cry_gcm_digest", [&] { cry_gcm_digest((cry_gcm_ctx *)c.outer, t, 16); }); if (memcmp(t, tag.data(), 16)) violation("life-leaks", "%s: tag differs from the definition after earlier lives in the same memory", nm(s)); }
    probe("complete");
}
// how: 0 initialise, 1 set key and IV, 2 set the IV only
void start(Slot &s, unsigned how)
{
    if (s.d) { s.d->choose_key(); call("init", [&] { s.d->init(); }); s.live = true; return; }
    Ciph &c = *s.c;
    if (how == 0) call("init", [&] { c.init(); });
    if (how <= 1) { c.choose_key(); uint8_t *k = ubuf_copy(c.key); call("key_set", [&] { c.key_set(k, c.key.size()); }); }
    if (c.has_iv()) { c.choose_iv(); uint8_t *v = ubuf_copy(c.iv); call("iv_set", [&] { c.iv_set(v, c.iv.size()); }); }
    s.live = true;
}
void lives()
{
    unsigned n = 3 + choose(10);
    for (unsigned i = 0; i < n; i++) {
        unsigned how = 0;
        if (!have || choose(3) == 0) { cur = make(); have = true; probe("other-kind-in-same-memory"); if (choose(4) == 0) { garbage(mem_a, cap_a); garbage(mem_b, cap_b); } }
        else if (cur.c && cur.live) { how = choose(3); if (how == 2 && !cur.c->has_iv()) how = 1; }
        evs("life", nm(cur)); ev("start", how); static const char *hn[] = {"start:init", "start:key+iv", "start:iv"}; probe(hn[how]); start(cur, how);
        message(cur, choose(2) ? 1000 : choose(4));
        if (cur.live && (cur.c ? true : cur.d->kind < 5) && choose(4) == 0) { call("clear", [&] { if (cur.c) cur.c->clear(); else hash_itfs[cur.d->kind].clear(cur.d->inner); }); cur.live = false; probe("clear"); }
    }
    note_time(n);
}
// ---- what clear leaves behind: the same life twice, on the same memory contents, with different secrets ------------
struct Script { uint32_t pattern; size_t klen, vlen, alen; std::vector<size_t> seg; bool enc, digest; };
void fillrng(Bytes &b, Rng &g) { for (auto &x : b) x = (uint8_t)(1 + g.below(255)); } // no zero bytes: what stays is visible
Bytes rb(size_t n, Rng &g) { Bytes b(n); fillrng(b, g); return b; }
void one_life(Slot &s, const Script &sc, uint64_t secret)
{
    Rng g(secret), f(sc.pattern); f.fill(mem_a, cap_a); f.fill(mem_b, cap_b);
    if (s.d) {
        call("init", [&] { s.d->init(); });
        for (size_t l : sc.seg) { uint8_t *b = ubuf_copy(rb(l, g)); call("update", [&] { s.d->update(b, l); }); }
        if (sc.digest) { uint8_t *o = ubuf(s.d->size()); call("digest", [&] { s.d->digest(o); }); }
        call("clear", [&] { hash_itfs[s.d->kind].clear(s.d->inner); });
    } else {
        Ciph &c = *s.c; call("init", [&] { c.init(); });
        if (sc.klen) { uint8_t *k = ubuf_copy(rb(sc.klen, g)); call("key_set", [&] { c.key_set(k, sc.klen); });
            if (sc.vlen) { uint8_t *v = ubuf_copy(rb(sc.vlen, g)); call("iv_set", [&] { c.iv_set(v, sc.vlen); });
                if (c.mode == GCM && sc.alen) { uint8_t *v = ubuf_copy(rb(sc.alen, g)); call("cry_gcm_update", [&] { cry_gcm_update((cry_gcm_ctx *)c.outer, v, sc.alen); }); } }
            if (sc.vlen || !c.has_iv()) for (size_t l : sc.seg) { uint8_t *b = ubuf_copy(rb(l, g)); call("crypt", [&] { c.crypt(sc.enc, b, b, l); }); } }
        call("clear", [&] { c.clear(); });
    }
}
void wiped()
{
    Slot s; if (choose(3) == 0) { s.sub = DIG; s.d = new Dig((int)choose(5)); } else { s.sub = CIPH; int m, b; Ciph::pick(m, b); s.c = new Ciph(m, b); } adopt(s);
    Script sc; sc.pattern = subseed(); sc.enc = choose(2); sc.digest = choose(3) == 0; sc.klen = sc.vlen = sc.alen = 0;
    size_t na, nb = 0, g = 1; if (s.d) na = s.d->inner_size(); else { na = s.c->inner_size(); nb = s.c->outer_size(); g = s.c->gran(); s.c->choose_key(); s.c->choose_iv(); unsigned st = choose(8); sc.klen = st ? s.c->key.size() : 0; sc.vlen = s.c->has_iv() && st > 1 ? s.c->iv.size() : 0; sc.alen = choose(2) ? 16 * choose(3) : 0; }
    unsigned k = choose(4); for (unsigned i = 0; i < k; i++) sc.seg.push_back(choose(2) ? g * choose(20) : g * choose(200)); if (s.c && s.c->mode != CBC && s.c->mode != ECB && choose(2)) sc.seg.push_back(1 + choose(30));
    evs("wiped", nm(s)); ev("segments", sc.seg.size(), sc.klen, sc.vlen); probe("wipe-check"); probe(s.d ? dig_names[s.d->kind] : mode_names[s.c->mode]);
    Bytes a[2], b[2]; uint64_t s1 = subseed(), s2 = s1 ^ 0x5555aaaa12345ull;
    for (int i = 0; i < 2; i++) { one_life(s, sc, i ? s2 : s1); a[i].assign(mem_a, mem_a + na); b[i].assign(mem_b, mem_b + nb); }
    for (size_t i = 0; i < na; i++) if (a[0][i] != a[1][i]) violation("secret-left", "%s: byte %zu of the cleared context depends on the key or the message", nm(s), i);
    for (size_t i = 0; i < nb; i++) if (b[0][i] != b[1][i]) violation("secret-left", "%s: byte %zu of the cleared mode context depends on the key, the IV or the message", nm(s), i);
}
// ---- key objects -----------------------------------------------------------------------------------------------
template <class C, class I, class U, class X> void key_object(const char *name, I init, U use, X clear)
{
    C *c = uobj<C>(); unsigned rounds = 1 + choose(3); evs("key object", name); probe(name);
    for (unsigned i = 0; i < rounds; i++) {
        uint32_t pat = subseed(); unsigned depth = choose(4); uint32_t u = subseed(); Bytes after[2]; uint64_t s1 = subseed(); // the same use, twice, with different keys
        for (int k = 0; k < 2; k++) {
            Rng f(pat); f.fill(c, sizeof *c); size_t live0 = live_blocks(); if (call("init", [&] { return init(c); }) != 0) violation("spurious-error", "%s init fails", name);
            Rng g(k ? s1 ^ 0x77777777 : s1), v(u); use(c, depth, g, v); call("clear", [&] { clear(c); });
            if (live_blocks() != live0) violation("leak", "%s: %ld block(s) still allocated after clear", name, (long)live_blocks() - (long)live0);
            after[k].assign((uint8_t *)c, (uint8_t *)c + sizeof *c);
        }
        for (size_t j = 0; j < sizeof *c; j++) if (after[0][j] != after[1][j]) violation("secret-left", "%s: byte %zu of the cleared context depends on the key", name, j);
    }
}
void load(cry_mpi *m, const bi &v) { Bytes b = bi_to_be(v); uint8_t *p = ubuf_copy(b); if (call("cry_mpi_load_bin", [&] { return cry_mpi_load_bin(m, p, b.size()); }) != 0) violation("spurious-error", "load"); }
bool fresh0(const cry_mpi *m, const char *w) { if (mpi_val(m, w) != 0) violation("life-leaks", "%s is not zero after init", w); return true; }
void keys()
{
    switch (choose(6)) {
    case 0: key_object<cry_dh_ctx>("dh", [](auto *c) { return cry_dh_init(c); }, [](auto *c, unsigned depth, Rng &g, Rng &v) {
        fresh0(&c->p, "p"); fresh0(&c->g, "g"); fresh0(&c->e, "e"); fresh0(&c->Y, "Y"); fresh0(&c->Z, "Z"); bi p = gen_prime(30 + v.below(60), v), gg = 2 + v.below(50), e = gen_bits(40, g) + 2; if (!depth) return; load(&c->p, p); load(&c->g, gg); load(&c->e, e);
        if (depth > 1) { if (call("cry_dh_agree", [&] { return cry_dh_agree(c); }) != 0) violation("spurious-error", "agree"); mpi_expect(&c->Y, bi_powm(gg, e, p), "life-leaks", "DH public value"); }
        if (depth > 2) { if (call("cry_dh_finalize", [&] { return cry_dh_finalize(c); }) != 0) violation("spurious-error", "finalize"); mpi_expect(&c->Z, bi_powm(bi_powm(gg, e, p), e, p), "life-leaks", "DH secret"); } }, [](auto *c) { cry_dh_clear(c); }); break;
    case 1: key_object<cry_rsa_ctx>("rsa", [](auto *c) { return cry_rsa_init(c, CRY_RSA_PADDING_NONE); }, [](auto *c, unsigned depth, Rng &g, Rng &v) {
        fresh0(&c->n, "n"); fresh0(&c->e, "e"); fresh0(&c->d, "d"); if (!depth) return; bi p, q, n, e, d; do { p = gen_prime(40, g); q = gen_prime(40, g); n = p * q; e = 65537; d = bi_inv(e, (p - 1) * (q - 1)); } while (p == q || d == 0); load(&c->n, n); load(&c->e, e); load(&c->d, d);
        if (depth > 1) { Bytes m(9); g.fill(m.data(), 9); m[0] = 0; uint8_t *b = ubuf_copy(m), *o = nullptr; size_t ol = 0; int r = call("cry_rsa_encrypt", [&] { return cry_rsa_encrypt(c, &o, &ol, b, 9); }); if (r == 0) sim_free(o); else violation("spurious-error", "rsa encrypt"); } }, [](auto *c) { cry_rsa_clear(c); }); break;
    case 2: key_object<cry_dsa_ctx>("dsa", [](auto *c) { return cry_dsa_init(c); }, [](auto *c, unsigned depth, Rng &g, Rng &v) {
        fresh0(&c->p, "p"); fresh0(&c->q, "q"); fresh0(&c->g, "g"); fresh0(&c->pub, "pub"); fresh0(&c->pvt, "pvt"); if (!depth) return; load(&c->pvt, gen_bits(160, g) | 1); if (depth > 1) { load(&c->p, gen_bits(500, g) | 1); load(&c->q, gen_bits(160, g) | 1); load(&c->g, gen_bits(160, g) | 1); } if (depth > 2) load(&c->pub, gen_bits(500, g)); }, [](auto *c) { cry_dsa_clear(c); }); break;
    case 3: key_object<cry_elgamal_ctx>("elgamal", [](auto *c) { return cry_elgamal_init(c); }, [](auto *c, unsigned depth, Rng &g, Rng &v) {
        fresh0(&c->p, "p"); fresh0(&c->g, "g"); fresh0(&c->d, "d"); fresh0(&c->y, "y"); if (!depth) return; load(&c->d, gen_bits(100, g)); if (depth > 1) { load(&c->p, gen_bits(100, g)); load(&c->y, gen_bits(100, g)); } }, [](auto *c) { cry_elgamal_clear(c); }); break;
    case 4: { int id = (int)choose(sizeof(cry_mpi_digit) >= 4 ? 11 : 1); key_object<cry_ecdsa_ctx>("ecdsa", [id](auto *c) { return cry_ecdsa_init(c, id); }, [](auto *c, unsigned depth, Rng &g, Rng &v) {
        fresh0(&c->d, "d"); if (!depth) return; load(&c->d, gen_bits(150, g) | 1); if (depth > 1) { load(&c->q.x, gen_bits(190, g)); load(&c->q.y, gen_bits(190, g)); } }, [](auto *c) { cry_ecdsa_clear(c); }); break; }
    default: { cry_ecdh_ctx *c = uobj<cry_ecdh_ctx>(); probe("ecdh"); for (unsigned i = 0, n = 1 + choose(3); i < n; i++) { size_t live0 = live_blocks(); garbage(c, sizeof *c); if (call("cry_ecdh_init", [&] { return cry_ecdh_init(c); }) != 0) violation("spurious-error", "ecdh init"); fresh0(&c->d, "d"); if (choose(2)) { Rng g(subseed()); load(&c->d, gen_bits(150, g)); load(&c->z.x, gen_bits(150, g)); } call("cry_ecdh_clear", [&] { cry_ecdh_clear(c); }); if (live_blocks() != live0) violation("leak", "ecdh: memory still allocated after clear"); } }
    }
}
}
extern "C" void scenario()
{
    for (int k = 0; k < 5; k++) cap_a = std::max(cap_a, hash_ctx_size[k]); for (int m = 0; m < NMODES; m++) for (int b = 0; b < 2; b++) { cap_a = std::max(cap_a, Ciph::inner_size_of(m, b)); cap_b = std::max(cap_b, Ciph::outer_size_of(m)); }
    cap_a = std::max({cap_a, sizeof(cry_crc16_ctx), sizeof(cry_crc32_ctx)}); cap_b = std::max({cap_b, sizeof(cry_hmac_ctx), sizeof(cry_cmac_ctx)});
    mem_a = ubuf(cap_a); mem_b = ubuf(cap_b);
    switch (choose(4)) { case 0: keys(); break; case 1: wiped(); break; default: lives(); }
}

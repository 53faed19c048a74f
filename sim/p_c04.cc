// C04: signatures fail closed and every reported signature verifies.
//
// Two nodes: a signer holding the key, a verifier holding only its public part. Signatures travel over a hostile
// network (corruption, replacement by zero/out-of-range values, replay under other messages or keys). Allocation and
// random-source failures hit sign, verify and key generation. Every outcome is compared with the mathematical definition.
#include "pk.h"
#include "twice.h"
using namespace sim;
extern "C" const char *scenario_real_components() { return ""; }
namespace {
Bytes message()
{
    unsigned s = choose(6); size_t n = s == 0 ? choose(4) : s == 1 ? 20 : s == 2 ? 32 : s == 3 ? 64 : choose(80);
    if (choose(100) == 99) { n = long_len(); probe("long-message"); }
    return bytes(n);
}
Bytes mutate_msg(Bytes m)
{
    switch (choose(6)) {
    case 4: if (m.size() > 1) { size_t a = choose((uint32_t)m.size()), b = choose((uint32_t)m.size()); uint8_t x = (uint8_t)(1u << choose(8)); if (choose(2)) { m[a] ^= x; m[b] ^= x; } else { m[a] += x; m[b] -= x; } } break; // differences that cancel
    case 0: if (!m.empty()) m[choose((uint32_t)m.size())] ^= (uint8_t)(1u << choose(8)); break;
    case 1: m.push_back((uint8_t)choose(3)); break;
    case 2: if (!m.empty()) m.pop_back(); break;
    case 3: m.insert(m.begin(), 0); break;
    default: m = message();
    }
    probe("corrupt:message"); return m;
}
void stale(cry_mpi *a) { memset(a, 0, sizeof *a); mpi_make(a, gen_val(200, true), choose(4)); }

// forged or damaged (r, s), m = modulus of the components
void mutate_sig(bi &r, bi &s, const bi &m, const bi &m2)
{
    bi *v = choose(2) ? &s : &r; const bi &q = v == &r ? m : m2;
    switch (choose(12)) {
    case 0: *v = 0; break;
    case 1: *v += q; break;
    case 2: *v = q; break;
    case 3: *v = -*v; break;
    case 4: *v = q - *v; break;
    case 5: *v -= q; break;
    case 6: std::swap(r, s); break;
    case 7: r = 0; s = 0; break;
    case 8: { unsigned b = choose((uint32_t)bi_bits(q) + 1); if (bit_test(bmp::abs(*v), b)) *v -= bi(1) << b; else *v += bi(1) << b; break; }
    case 9: { Rng g(subseed()); r = bi_mod(gen_bits(bi_bits(m) + 8, g), m); s = bi_mod(gen_bits(bi_bits(m2) + 8, g), m2); break; }
    case 10: r = 1; s = choose(3); break;
    default: *v += q * (1 + choose(3)) << choose(70);
    }
    probe("corrupt:signature");
}

// ---- DSA / ECDSA / ElGamal share the (r, s) structure -------------------------------------------------------
struct Scheme {
    virtual int sign(cry_mpi *r, cry_mpi *s, const uint8_t *m, size_t n) = 0;
    virtual int verify(const cry_mpi *r, const cry_mpi *s, const uint8_t *m, size_t n) = 0;
    virtual bool accept(const Bytes &m, const bi &r, const bi &s) = 0;
    virtual bool healthy(const Bytes &m) = 0;
    virtual bool legal(const Bytes &m) { return true; }
    virtual bool craft(const Bytes &m, const Bytes &m0, bi &r, bi &s) = 0; // an insider's forgery: satisfies the equation, but a component is out of range
    virtual void check_ctx() = 0;
    virtual bi mod_r() = 0; virtual bi mod_s() = 0;
    virtual bi nonce(const Bytes &m, const bi &r, const bi &s) = 0; // the per-signature secret behind a signature of this key
    virtual Bytes zero_s(const bi &r) = 0; // a message for which that r needs s = 0
    virtual void drop() = 0;
    virtual ~Scheme() {}
};
Bytes left_message(const bi &z, const bi &q) { size_t b = bi_bits(q), n = (b + 7) / 8; return bi_to_be(z << (8 * n - b), n); } // left_bits(.., q) == z
struct Dsa : Scheme {
    DsaKey k; cry_dsa_ctx *sg, *vf;
    Dsa() {
        static const size_t qs[] = {5, 7, 8, 9, 12, 16, 31, 32, 33, 64, 65, 160}; size_t qb = qs[choose(sizeof(cry_mpi_digit) == 1 ? 8 : 12)];
        k = dsa_params(qb, qb + 3 + choose(qb < 64 ? 60 : 120));
        sg = uobj<cry_dsa_ctx>(); vf = uobj<cry_dsa_ctx>();
        for (auto c : {sg, vf}) { mpi_make(&c->p, k.p, choose(2)); mpi_make(&c->q, k.q, 0); mpi_make(&c->g, k.g, 0); mpi_make(&c->pub, k.y, 0); mpi_make(&c->pvt, c == sg ? k.x : bi(0), 0); }
        note("dsa q", bi_str(k.q)); note("p", bi_str(k.p)); note("x", bi_str(k.x));
    }
    int sign(cry_mpi *r, cry_mpi *s, const uint8_t *m, size_t n) override { cry_dsa_sig g = {*r, *s}; int x = cry_dsa_sign(sg, &g, m, n); *r = g.r; *s = g.s; return x; }
    int verify(const cry_mpi *r, const cry_mpi *s, const uint8_t *m, size_t n) override { cry_dsa_sig g = {*r, *s}; return cry_dsa_verify(vf, &g, m, n); }
    bool accept(const Bytes &m, const bi &r, const bi &s) override { return k.accept(m, r, s); }
    bool healthy(const Bytes &m) override { return k.healthy(m); }
    void check_ctx() override { for (auto c : {sg, vf}) { mpi_expect(&c->p, k.p, "operand-changed", "p"); mpi_expect(&c->q, k.q, "operand-changed", "q"); mpi_expect(&c->g, k.g, "operand-changed", "g"); mpi_expect(&c->pub, k.y, "operand-changed", "public key"); mpi_expect(&c->pvt, c == sg ? k.x : bi(0), "operand-changed", "private key"); } }
    bool craft(const Bytes &m, const Bytes &, bi &r, bi &s) override {
        bi z = left_bits(m, k.q); if (k.q > 3000) return false;
        bi gk = 1, at = 0; unsigned skip = choose(4); for (unsigned e = 1; e < (unsigned)k.q; e++) { gk = gk * k.g % k.p; if (gk % k.q == 0) { at = e; if (!skip--) break; } }
        if (at == 0 || z % k.q == 0) return false;
        r = 0; s = z * bi_inv(at, k.q) % k.q; return true; // g^(z/s) mod p mod q = 0
    }
    bi mod_r() override { return k.q; } bi mod_s() override { return k.q; }
    bi nonce(const Bytes &m, const bi &r, const bi &s) override { return bi_mod((left_bits(m, k.q) + k.x * r) * bi_inv(s, k.q), k.q); }
    Bytes zero_s(const bi &r) override { return left_message(bi_mod(-k.x * r, k.q), k.q); }
    void drop() override { for (auto c : {sg, vf}) call("cry_dsa_clear", [&] { cry_dsa_clear(c); }); }
};
struct Ecdsa : Scheme {
    EcdsaKey k; cry_ecdsa_ctx *sg, *vf; bool builtin = false;
    Ecdsa() {
        sg = uobj<cry_ecdsa_ctx>(); vf = uobj<cry_ecdsa_ctx>(); std::vector<Pt> pts; Rng g(subseed());
        if (sizeof(cry_mpi_digit) >= 4 && choose(64) == 63) {
            static const int ids[] = {0, 5, 2, 7, 8, 1, 6, 0, 5, 3, 9, 10, 4}; int id = ids[choose(13)]; builtin = true; heavy = true; k.c = std_curve(id); k.d = 1 + bi_mod(gen_bits(600, g), k.c.n - 1);
            for (auto c : {sg, vf}) if (call("cry_ecp_grp_load", [&] { return cry_ecp_grp_load(&c->grp, id); }) != 0) violation("spurious-error", "curve cannot be loaded");
        } else { if (choose(3)) k.c = tiny_curve(pts, true, choose(2) ? 5 : 17); else k.c = ordered_curve(choose(14)); k.d = 1 + bi_mod(gen_bits(100, g), k.c.n - 1); for (auto c : {sg, vf}) grp_make(&c->grp, k.c, choose(2)); }
        k.q = k.c.mul(k.c.g, k.d);
        for (auto c : {sg, vf}) { mpi_make(&c->d, c == sg ? k.d : bi(0), 0); pt_make(&c->q, k.q); }
        note("ecdsa p", bi_str(k.c.p)); note("a", bi_str(k.c.a)); note("b", bi_str(k.c.b)); note("n", bi_str(k.c.n)); note("g", pt_str(k.c.g)); note("d", bi_str(k.d));
        probe(builtin ? "ecdsa:built-in" : "ecdsa:tiny");
    }
    int sign(cry_mpi *r, cry_mpi *s, const uint8_t *m, size_t n) override { cry_ecdsa_sig g = {*r, *s}; int x = cry_ecdsa_sign(sg, &g, m, n); *r = g.r; *s = g.s; return x; }
    int verify(const cry_mpi *r, const cry_mpi *s, const uint8_t *m, size_t n) override { cry_ecdsa_sig g = {*r, *s}; return cry_ecdsa_verify(vf, &g, m, n); }
    bool accept(const Bytes &m, const bi &r, const bi &s) override { return k.accept(m, r, s); }
    bool healthy(const Bytes &m) override { return k.healthy(m); }
    void check_ctx() override { for (auto c : {sg, vf}) { grp_expect(&c->grp, k.c, "group-changed"); if (!(pt_val(&c->q, "q") == k.q)) violation("operand-changed", "public key changed"); mpi_expect(&c->d, c == sg ? k.d : bi(0), "operand-changed", "private key"); } }
    bool craft(const Bytes &m, const Bytes &, bi &r, bi &s) override {
        const bi &n = k.c.n; bi z = left_bits(m, n); Rng g(subseed());
        if (choose(2)) { r = bi_mod(-z * bi_inv(k.d, n), n); s = 1 + bi_mod(gen_bits(bi_bits(n) + 8, g), n - 1); return true; } // the point at infinity
        if (n > 3000 || z % n == 0) return false;
        Pt R; for (unsigned e = 1; e < (unsigned)n; e++) { R = k.c.add(R, k.c.g); if (R.x % n == 0) { r = 0; s = z * bi_inv(e, n) % n; return true; } }
        return false;
    }
    bi mod_r() override { return k.c.n; } bi mod_s() override { return k.c.n; }
    bi nonce(const Bytes &m, const bi &r, const bi &s) override { return bi_mod((left_bits(m, k.c.n) + k.d * r) * bi_inv(s, k.c.n), k.c.n); }
    Bytes zero_s(const bi &r) override { return left_message(bi_mod(-k.d * r, k.c.n), k.c.n); }
    void drop() override { for (auto c : {sg, vf}) call("cry_ecdsa_clear", [&] { cry_ecdsa_clear(c); }); }
};
struct Elg : Scheme {
    ElgKey k; cry_elgamal_ctx *sg, *vf; bool raw; size_t siz;
    Elg() {
        static const size_t ps[] = {5, 8, 9, 12, 16, 24, 33, 64, 72, 128}; k = elg_key(ps[choose(sizeof(cry_mpi_digit) == 1 ? 7 : 10)]); raw = choose(2); siz = (bi_bits(k.p) + 7) / 8;
        sg = uobj<cry_elgamal_ctx>(); vf = uobj<cry_elgamal_ctx>();
        for (auto c : {sg, vf}) { mpi_make(&c->p, k.p, choose(2)); mpi_make(&c->g, k.g, 0); mpi_make(&c->y, k.y, 0); mpi_make(&c->d, c == sg ? k.d : bi(0), 0); }
        note("elgamal p", bi_str(k.p)); note("g", bi_str(k.g)); note("d", bi_str(k.d)); ev("raw", raw);
    }
    int sign(cry_mpi *r, cry_mpi *s, const uint8_t *m, size_t n) override {
        if (raw) { // serialised form: load it back with harness code
            uint8_t *b = ubuf(2 * siz, choose(8)); int x = cry_elgamal_sign(sg, b, m, n);
            if (x == 0) { end_call(); mpi_drop(r); mpi_drop(s); mpi_make(r, bi_from_be(b, siz), 0); mpi_make(s, bi_from_be(b + siz, siz), 0); begin_call("cry_elgamal_sign", 1000000); }
            return x;
        }
        cry_elgamal_sig g = {*r, *s}; int x = cry_elgamal_sign2(sg, &g, m, n); *r = g.r; *s = g.s; return x; }
    int verify(const cry_mpi *r, const cry_mpi *s, const uint8_t *m, size_t n) override {
        if (raw && rv >= 0 && sv >= 0 && (bi_bits(rv) + 7) / 8 <= siz && (bi_bits(sv) + 7) / 8 <= siz) { return cry_elgamal_verify(vf, buf, m, n); }
        cry_elgamal_sig g = {*r, *s}; return cry_elgamal_verify2(vf, &g, m, n); }
    bi rv, sv; uint8_t *buf = nullptr;
    void prepare(const bi &r, const bi &s) { rv = r; sv = s; if (raw && r >= 0 && s >= 0 && (bi_bits(r) + 7) / 8 <= siz && (bi_bits(s) + 7) / 8 <= siz) { Bytes a = bi_to_be(r, siz), b = bi_to_be(s, siz); buf = ubuf_copy(ref::cat(a, b), choose(8)); readonly(buf, 2 * siz); } else buf = nullptr; }
    bool accept(const Bytes &m, const bi &r, const bi &s) override { return k.accept(m, r, s); }
    bool healthy(const Bytes &m) override { return k.healthy(m); }
    bool legal(const Bytes &m) override { return m.size() <= siz; }
    void check_ctx() override { for (auto c : {sg, vf}) { mpi_expect(&c->p, k.p, "operand-changed", "p"); mpi_expect(&c->g, k.g, "operand-changed", "g"); mpi_expect(&c->y, k.y, "operand-changed", "public key"); mpi_expect(&c->d, c == sg ? k.d : bi(0), "operand-changed", "private key"); } }
    bool craft(const Bytes &m, const Bytes &m0, bi &r, bi &s) override {
        bi q = k.p - 1, z = bi_from_be(m.data(), m.size()), z0 = bi_from_be(m0.data(), m0.size());
        if (choose(2)) { bi i = bi_inv(k.d, q); if (i == 0) return false; r = bi_mod(z * i, q); s = 0; return true; } // y^r = g^m
        bi u = bi_inv(z0, q); if (u == 0 || s <= 0 || r <= 0) return false; u = bi_mod(u * z, q); // Bleichenbacher: another message's signature, r beyond p
        s = bi_mod(s * u, q); bi ru = bi_mod(r * u, q); r = ru + q * bi_mod(ru - r, k.p); return true; // = ru mod p-1, = r mod p
    }
    bi mod_r() override { return k.p; } bi mod_s() override { return k.p - 1; }
    bi nonce(const Bytes &m, const bi &r, const bi &s) override { return bi_inv(s, k.p - 1) == 0 ? bi(0) : bi_mod((bi_from_be(m.data(), m.size()) - k.d * r) * bi_inv(s, k.p - 1), k.p - 1); }
    Bytes zero_s(const bi &r) override { return bi_to_be(bi_mod(k.d * r, k.p - 1), siz); }
    void drop() override { for (auto c : {sg, vf}) call("cry_elgamal_clear", [&] { cry_elgamal_clear(c); }); }
};

void run_rs(Scheme *S, const char *sn, const char *vn, Elg *eg)
{
    cry_mpi *r = uobj<cry_mpi>(), *s = uobj<cry_mpi>(); std::vector<bi> seen;
    unsigned nmsg = heavy ? 1 : 1 + choose(3); bool again = false; Bytes zm; PrngCfg zst;
    for (unsigned i = 0; i < nmsg; i++) {
        bool zs = again; again = false; // the same random bytes, and a message for which their first nonce gives s = 0
        Bytes m = zs ? zm : message(); if (eg && !zs) { if (choose(6)) m.resize(std::min(m.size(), eg->siz)); }
        uint8_t *mb = ubuf_copy(m, choose(8)); readonly(mb, m.size()); evb("message", m.data(), m.size());
        stale(r); stale(s); PrngCfg st = zs ? zst : stream(); bool legal = S->legal(m), healthy = legal && st.kind == PrngCfg::RANDOM && S->healthy(m);
        auto judge = [&](int ret, unsigned fired, unsigned prng) {
            if (ret == 0) {
                if (!legal) violation("illegal-accepted", "%s signed a message that does not fit", sn);
                bi rv = mpi_val(r, "signature r"), sv = mpi_val(s, "signature s");
                if (!S->accept(m, rv, sv)) violation(fired || prng ? "bad-signature-after-fault" : "bad-signature", "%s returned success with r=%s s=%s which the definition rejects", sn, bi_str(rv).c_str(), bi_str(sv).c_str());
            } else if (!fired && !prng && healthy) violation("spurious-error", "%s returned %d without any fault", sn, ret);
        };
        size_t base = live_blocks();
        auto leak = [&] { size_t l = live_blocks(); if (l != base) { // the digits of r and s may have been (re)allocated
            violation("leak", "%s: %ld more block(s)", sn, (long)l - (long)base); } };
        between = [&] { mpi_drop(r); mpi_drop(s); stale(r); stale(s); base = live_blocks(); };
        R x = twice(sn, st, [&] { return S->sign(r, s, mb, m.size()); }, [&](int ret) { judge(ret, 0, 0); leak(); });
        between = nullptr; judge(x.ret, x.fired, x.prng); leak(); S->check_ctx();
        bi rv, sv; bool have = x.ret == 0;
        if (have) { rv = mpi_val(r, "r"); sv = mpi_val(s, "s"); evs("sig", bi_str(rv) + " " + bi_str(sv));
            if (zs) probe("signed-after-zero-s"); else if (!heavy && choose(4) == 3) { again = true; zst = st; zm = S->zero_s(rv); nmsg++; probe(st.kind == PrngCfg::RANDOM ? "zero-s" : "zero-s-stuck-source"); }
            if (st.kind == PrngCfg::RANDOM && !x.prng && !zs && bi_bits(S->mod_s()) > 60) { for (auto &o : seen) if (o == rv) violation("nonce-reuse", "two signatures from different random bytes share r"); seen.push_back(rv);
                bi kk = S->nonce(m, rv, sv); if (kk != 0) { probe("nonce-spread"); weak_secret(kk, bi_bits(S->mod_s()), "the per-signature secret"); } } }
        else { Rng g(subseed()); rv = bi_mod(gen_bits(bi_bits(S->mod_r()) + 8, g), S->mod_r()); sv = bi_mod(gen_bits(bi_bits(S->mod_s()) + 8, g), S->mod_s()); }
        mpi_drop(r); mpi_drop(s);
        // deliveries: the verifier sees the signature possibly several times, intact or not
        unsigned nd = heavy ? 1 : 1 + choose(4);
        for (unsigned d = 0; d < nd; d++) {
            bi r2 = rv, s2 = sv; Bytes m2 = m; unsigned c = choose(6);
            if (c == 1 || c == 4) mutate_sig(r2, s2, S->mod_r(), S->mod_s());
            if (c == 2 || c == 4) m2 = mutate_msg(m);
            if (c == 0 && !have && choose(2)) mutate_sig(r2, s2, S->mod_r(), S->mod_s());
            if (c == 5) { if (choose(2)) { m2 = message(); if (eg) m2.resize(std::min(m2.size(), eg->siz)); } if (S->craft(m2, m, r2, s2)) probe("crafted-forgery"); }
            bool want = S->legal(m2) && S->accept(m2, r2, s2);
            cry_mpi *vr = uobj<cry_mpi>(), *vs = uobj<cry_mpi>(); mpi_make(vr, r2, choose(2)); mpi_make(vs, s2, choose(2)); if (eg) eg->prepare(r2, s2);
            uint8_t *b2 = ubuf_copy(m2, choose(8)); readonly(b2, m2.size()); note("verify r", bi_str(r2)); note("s", bi_str(s2)); evb("verify message", m2.data(), m2.size());
            size_t vb = live_blocks();
            auto vj = [&](int ret, unsigned fired) {
                if (ret == 0 && !want) violation(fired ? "forgery-accepted-after-fault" : "forgery-accepted", "%s accepted r=%s s=%s", vn, bi_str(r2).c_str(), bi_str(s2).c_str());
                if (ret != 0 && want && !fired) violation("valid-rejected", "%s returned %d for a valid signature r=%s s=%s", vn, ret, bi_str(r2).c_str(), bi_str(s2).c_str());
                if (live_blocks() != vb) violation("leak", "%s leaks %ld block(s)", vn, (long)live_blocks() - (long)vb);
            };
            R v = twice(vn, PrngCfg(), [&] { return S->verify(vr, vs, b2, m2.size()); }, [&](int ret) { vj(ret, 0); });
            vj(v.ret, v.fired + v.prng); probe(want ? "verify:accept" : "verify:reject");
            mpi_expect(vr, r2, "operand-changed", "signature r"); mpi_expect(vs, s2, "operand-changed", "signature s"); S->check_ctx();
            mpi_drop(vr); mpi_drop(vs); readonly_drop(b2); if (eg && eg->buf) { readonly_drop(eg->buf); eg->buf = nullptr; }
        }
        readonly_drop(mb);
    }
    S->drop();
}

// ---- RSA --------------------------------------------------------------------------------------------------
void ctx_make(cry_rsa_ctx *c, const RsaKey &k, int pad, bool pvt) { c->padding = (char)pad; mpi_make(&c->n, k.n, 0); mpi_make(&c->e, k.e, 0); mpi_make(&c->d, pvt ? k.d : bi(0), 0); mpi_make(&c->p, 0, 0); mpi_make(&c->q, 0, 0); }
bool rsa_encode(const RsaKey &k, int pad, const Bytes &m, std::vector<bi> &blocks)
{
    size_t kl = k.k(), per = pad ? (kl > 11 ? kl - 11 : 0) : kl, off = 0; blocks.clear(); if (!per) return false;
    do {
        size_t n = std::min(per, m.size() - off); Bytes b;
        if (pad) { b = {0, 1}; b.insert(b.end(), kl - 3 - n, 0xff); b.push_back(0); b.insert(b.end(), m.begin() + off, m.begin() + off + n); }
        else { b.assign(m.begin() + off, m.begin() + off + n); b.resize(kl); }
        bi v = bi_from_be(b.data(), b.size()); if (v >= k.n) return false;
        blocks.push_back(v); off += n;
    } while (off < m.size());
    return true;
}
bool rsa_accept(const RsaKey &k, int pad, const Bytes &sig, const Bytes &m)
{
    size_t kl = k.k(); if (sig.empty() || sig.size() % kl) return false;
    Bytes out;
    for (size_t o = 0; o < sig.size(); o += kl) {
        bi c = bi_from_be(&sig[o], kl); if (c >= k.n) return false;
        Bytes b = bi_to_be(bi_powm(c, k.e, k.n), kl);
        if (!pad) { out.insert(out.end(), b.begin(), b.end()); continue; }
        if (kl < 11 || b[0] != 0 || b[1] != 1) return false;
        size_t i = 2; while (i < kl && b[i] == 0xff) i++;
        if (i == kl || b[i] != 0 || i < 10) return false;
        out.insert(out.end(), b.begin() + i + 1, b.end());
    }
    if (pad) return out == m;
    size_t nb = m.empty() ? 1 : (m.size() + kl - 1) / kl; Bytes w = m; w.resize(nb * kl); return out == w;
}
void run_rsa()
{
    int pad = choose(3) ? CRY_RSA_PADDING_PKCS_V15 : CRY_RSA_PADDING_NONE;
    size_t bits = pad ? (choose(8) ? 89 + choose(sizeof(cry_mpi_digit) == 1 ? 30 : 140) : 20 + choose(80)) : 9 + choose(sizeof(cry_mpi_digit) == 1 ? 60 : 180); bool large = sizeof(cry_mpi_digit) > 1 && choose(100) == 99; size_t ll = large ? large_len() : 0; if (large) probe("large-modulus"); RsaKey k = large ? rsa_key_large(ll) : rsa_key(bits), k2 = large ? rsa_key_large(ll) : rsa_key(bits);
    cry_rsa_ctx *sg = uobj<cry_rsa_ctx>(), *vf = uobj<cry_rsa_ctx>(); ctx_make(sg, k, pad, true); ctx_make(vf, k, pad, false);
    note("rsa n", bi_str(k.n)); note("e", bi_str(k.e)); note("d", bi_str(k.d)); ev("padding", pad, k.k()); size_t kl = k.k();
    unsigned nmsg = 1 + choose(2);
    for (unsigned i = 0; i < nmsg; i++) {
        size_t per = pad ? (kl > 11 ? kl - 11 : 1) : kl; size_t n; switch (choose(5)) { case 0: n = choose(3); break; case 1: n = per; break; case 2: n = per * (1 + choose(3)); break; case 3: n = per + choose(3); break; default: n = choose((uint32_t)per * 3 + 1); } if (large && kl >= 250 && kl < 300 && choose(3) == 2) { n = long_len(); heavy = true; step_budget = 6000000000ull; probe("long-message"); }
        Bytes m = bytes(n); if (!pad) for (size_t o = 0; o < n; o += kl) if (choose(8)) m[o] = (uint8_t)(m[o] % ((unsigned)bi_to_be(k.n, kl)[0] ? (unsigned)bi_to_be(k.n, kl)[0] : 1));
        if (!pad && n >= kl && choose(5) == 4) { Bytes b = bi_to_be(k.n - 1 + choose(3), kl); if (b.size() == kl) { memcpy(&m[(n / kl - 1) * kl], b.data(), kl); probe("value-around-modulus"); } }
        std::vector<bi> blk; bool legal = rsa_encode(k, pad, m, blk);
        uint8_t *mb = ubuf_copy(m, choose(8)); readonly(mb, n); evb("message", m.data(), n);
        uint8_t **out = uobj<uint8_t *>(); size_t *outlen = uobj<size_t>(); Bytes sig; bool have = false;
        auto judge = [&](int ret, unsigned fired) {
            if (ret != 0) {
                if (legal && !fired) violation("spurious-error", "cry_rsa_sign returned %d without any fault", ret);
                if (*out) violation("error-with-buffer", "cry_rsa_sign failed but handed out a buffer");
                return;
            }
            if (!legal) violation("illegal-accepted", "cry_rsa_sign signed a message that does not fit the modulus");
            if (*outlen != blk.size() * kl || !is_live(*out)) violation("bad-signature", "cry_rsa_sign gives %zu bytes, expected %zu", *outlen, blk.size() * kl);
            for (size_t b = 0; b < blk.size(); b++) if (bi_from_be(*out + b * kl, kl) != bi_powm(blk[b], k.d, k.n)) violation(fired ? "bad-signature-after-fault" : "bad-signature", "block %zu of the signature is not m^d mod n", b);
            sig.assign(*out, *out + *outlen); have = true; xfree(*out); *out = nullptr;
        };
        size_t base = live_blocks(); auto leak = [&](const char *w) { if (live_blocks() != base) violation("leak", "%s leaks %ld block(s)", w, (long)live_blocks() - (long)base); };
        R x = twice("cry_rsa_sign", stream(), [&] { garbage(out, sizeof *out); garbage(outlen, sizeof *outlen); return cry_rsa_sign(sg, out, outlen, mb, n); }, [&](int r) { judge(r, 0); leak("cry_rsa_sign"); });
        if (x.fired || x.prng) { judge(x.ret, x.fired + x.prng); leak("cry_rsa_sign"); }
        else if (x.ret == 0 && *out) { judge(x.ret, 0); }
        if (!have) { sig = bytes(kl * (1 + choose(2))); }
        evb("signature", sig.data(), sig.size());
        unsigned nd = 1 + choose(4);
        for (unsigned d = 0; d < nd; d++) {
            Bytes s2 = sig, m2 = m; unsigned c = choose(6);
            if (c == 1 || c == 4) {
                switch (choose(9)) {
                case 0: s2[choose((uint32_t)s2.size())] ^= (uint8_t)(1u << choose(8)); break;
                case 1: s2.pop_back(); break;
                case 2: s2.push_back(0); break;
                case 3: s2.resize(choose((uint32_t)s2.size() + 1)); break;
                case 4: { bi v = bi_from_be(s2.data(), kl) + k.n; Bytes b = bi_to_be(v, kl); if (b.size() == kl) memcpy(s2.data(), b.data(), kl); break; }
                case 5: { Bytes e = s2; s2.insert(s2.end(), e.begin(), e.end()); break; }
                case 6: if (s2.size() >= kl && choose(2)) { Bytes b = bi_to_be(k.n - 1 + choose(3), kl); if (b.size() == kl) { memcpy(s2.data(), b.data(), kl); s2.resize(kl); m2 = Bytes(1 + choose((uint32_t)kl), 0); probe("corrupt:around-modulus"); } break; } memset(s2.data(), 0, s2.size()); break;
                case 7: { std::vector<bi> b2; // forged padding: the right key, a malformed block
                    Bytes e(kl); if (kl >= 4) { e[1] = (uint8_t)(choose(3) ? 1 : choose(4)); size_t pos = 2 + choose((uint32_t)kl - 2); for (size_t j = 2; j < pos; j++) e[j] = 0xff; if (choose(4) == 0 && pos > 2) e[2 + choose((uint32_t)pos - 2)] ^= (uint8_t)(1 + choose(255));
                        for (size_t j = pos + 1; j < kl; j++) e[j] = j - pos - 1 < m.size() ? m[j - pos - 1] : 0x55; m2.assign(e.begin() + std::min(pos + 1, kl), e.end()); }
                    bi v = bi_from_be(e.data(), kl); if (v < k.n) s2 = bi_to_be(bi_powm(v, k.d, k.n), kl); break; }
                default: { std::vector<bi> b2; if (rsa_encode(k2, pad, m, b2) && k2.k() == kl) { s2.clear(); for (auto &v : b2) { Bytes t = bi_to_be(bi_powm(v, k2.d, k2.n), kl); s2.insert(s2.end(), t.begin(), t.end()); } } }
                }
                probe("corrupt:signature");
            }
            if (c == 2 || c == 4) m2 = mutate_msg(m2);
            if (c == 5 && !pad) { m2 = sig; bi v = 0; m2.clear(); for (size_t o = 0; o + kl <= s2.size(); o += kl) { bi cc = bi_from_be(&s2[o], kl); if (cc >= k.n) break; Bytes b = bi_to_be(bi_powm(cc, k.e, k.n), kl); m2.insert(m2.end(), b.begin(), b.end()); } if (!m2.empty()) m2.resize(choose((uint32_t)m2.size() + 1)); }
            bool want = rsa_accept(k, pad, s2, m2);
            uint8_t *sb = ubuf_copy(s2, choose(8)), *b2 = ubuf_copy(m2, choose(8)); readonly(sb, s2.size()); readonly(b2, m2.size()); evb("verify sig", s2.data(), s2.size()); evb("verify msg", m2.data(), m2.size());
            size_t vb = live_blocks();
            auto vj = [&](int ret, unsigned fired) {
                if (ret == 0 && !want) violation(fired ? "forgery-accepted-after-fault" : "forgery-accepted", "cry_rsa_verify accepted a signature the definition rejects");
                if (ret != 0 && want && !fired) violation("valid-rejected", "cry_rsa_verify returned %d for a valid signature", ret);
                if (live_blocks() != vb) violation("leak", "cry_rsa_verify leaks %ld block(s)", (long)live_blocks() - (long)vb);
            };
            R v = twice("cry_rsa_verify", PrngCfg(), [&] { return cry_rsa_verify(vf, sb, s2.size(), b2, m2.size()); }, [&](int r) { vj(r, 0); });
            vj(v.ret, v.fired + v.prng); probe(want ? "verify:accept" : "verify:reject");
            readonly_drop(sb); readonly_drop(b2);
        }
        readonly_drop(mb);
    }
    mpi_expect(&sg->d, k.d, "operand-changed", "private exponent"); mpi_expect(&vf->n, k.n, "operand-changed", "modulus"); mpi_expect(&vf->e, k.e, "operand-changed", "exponent");
    for (auto c : {sg, vf}) call("cry_rsa_clear", [&] { cry_rsa_clear(c); });
}

// ---- key generation -------------------------------------------------------------------------------------------
void run_keygen()
{
    unsigned kind = choose(24); kind = kind >= 20 && sizeof(cry_mpi_digit) > 1 ? 2 : kind & 1; if (kind == 2 && choose(4)) faulty = true; PrngCfg st; st.seed = subseed(); Rng g(subseed());
    if (kind == 0) { // ECDSA on a tiny curve or a built-in one
        std::vector<Pt> pts; cry_ecdsa_ctx *c = uobj<cry_ecdsa_ctx>(); Curve cv; if (choose(2)) cv = ordered_curve(choose(14)); else cv = tiny_curve(pts, true, 5); if (choose(3)) st = stream();
        bool big = sizeof(cry_mpi_digit) >= 4 && choose(24) == 23; int id = choose(11);
        if (big) { cv = std_curve(id); if (call("cry_ecdsa_init", [&] { return cry_ecdsa_init(c, id); }) != 0) violation("spurious-error", "ecdsa init"); }
        else { grp_make(&c->grp, cv, choose(2)); mpi_make(&c->d, 0, 0); pt_make(&c->q, Pt()); }
        auto judge = [&](int ret, unsigned f) {
            if (ret != 0) { if (!f) violation("spurious-error", "cry_ecdsa_keygen returned %d without any fault", ret); return; }
            judge_ecdsa_key(c, cv, f, st.kind == PrngCfg::RANDOM && st.script.empty());
        };
        between = [&] { mpi_drop(&c->d); mpi_make(&c->d, 0, 0); pt_drop(&c->q); pt_make(&c->q, Pt()); };
        R r = twice("cry_ecdsa_keygen", st, [&] { return cry_ecdsa_keygen(c); }, [&](int x) { judge(x, 0); }); judge(r.ret, r.fired + r.prng);
        call("cry_ecdsa_clear", [&] { cry_ecdsa_clear(c); });
    } else if (kind == 2) { // DSA, 512-bit modulus; the stream leads to primes at once
        cry_dsa_ctx *c = uobj<cry_dsa_ctx>(); if (call("cry_dsa_init", [&] { return cry_dsa_init(c); }) != 0) violation("spurious-error", "dsa init");
        unsigned si = choose(12) == 11 ? 6 + choose(2) : choose(6); dsa_script(st, si, g); probe("dsa-keygen");
        auto judge = [&](int ret, unsigned f) {
            if (ret != 0) { if (!f) violation("spurious-error", "cry_dsa_keygen returned %d without any fault", ret); return; }
            judge_dsa_key(c, dsa_l[si], f);
        };
        between = [&] { cry_dsa_clear(c); garbage(c, sizeof *c); if (cry_dsa_init(c) != 0) violation("spurious-error", "dsa init"); };
        R r = twice("cry_dsa_keygen", st, [&] { return cry_dsa_keygen(c, dsa_l[si]); }, [&](int x) { judge(x, 0); }); judge(r.ret, r.fired + r.prng);
        call("cry_dsa_clear", [&] { cry_dsa_clear(c); });
    } else { // RSA with a small modulus
        cry_rsa_ctx *c = uobj<cry_rsa_ctx>(); if (call("cry_rsa_init", [&] { return cry_rsa_init(c, 1); }) != 0) violation("spurious-error", "rsa init");
        size_t bits = 16 * (1 + choose(sizeof(cry_mpi_digit) == 1 ? 3 : 6)); static const long es[] = {0, 3, 17, 65537, 5, 257}; long e = es[choose(6)]; if (bits == 16 && (e > 255 || e == 0)) e = 17; ev("rsa keygen", bits, (uint64_t)e);
        auto judge = [&](int ret, unsigned f) {
            if (ret != 0) { if (!f && !(bits <= 32)) violation("spurious-error", "cry_rsa_keygen(%zu, %ld) returned %d without any fault", bits, e, ret); return; }
            judge_rsa_key(c, bits, e, f);
        };
        between = [&] { cry_rsa_clear(c); garbage(c, sizeof *c); if (cry_rsa_init(c, 1) != 0) violation("spurious-error", "rsa init"); };
        R r = twice("cry_rsa_keygen", st, [&] { return cry_rsa_keygen(c, bits, e); }, [&](int x) { judge(x, 0); }); judge(r.ret, r.fired + r.prng);
        call("cry_rsa_clear", [&] { cry_rsa_clear(c); });
    }
}
}
extern "C" void scenario()
{
    faulty = choose(3) != 0; unsigned w[] = {4, 4, 3, 4, 2}; unsigned k = pick_weighted(w, 5); ev("scheme", k);
    switch (k) {
    case 0: { Dsa s; run_rs(&s, "cry_dsa_sign", "cry_dsa_verify", nullptr); break; }
    case 1: { Ecdsa s; run_rs(&s, "cry_ecdsa_sign", "cry_ecdsa_verify", nullptr); break; }
    case 2: { Elg s; run_rs(&s, s.raw ? "cry_elgamal_sign" : "cry_elgamal_sign2", s.raw ? "cry_elgamal_verify" : "cry_elgamal_verify2", &s); break; }
    case 3: run_rsa(); break;
    default: run_keygen();
    }
}

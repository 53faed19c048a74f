// C12: two to four caller threads, each on its own objects (operands passed as const may be shared), preempted by the
// simulator at any basic block, load or store of the library. Every result must be the one the same job gives alone.
#include "pk.h"
#include "sym.h"
#include <memory>
extern "C" {
#include <cry/base64.h>
#include <cry/affine.h>
#include <cry/hill.h>
#include "crypt/memxor.h"
}
using namespace sim;
extern "C" const char *scenario_real_components() { return ""; }
namespace {
struct Res { int err = 0; bool soft = false, mayfail = false; Bytes out; void add(const void *p, size_t n) { out.insert(out.end(), (const uint8_t *)p, (const uint8_t *)p + n); } void num(const cry_mpi *m) { bi v = mpi_val(m, "result", false); std::string s = bi_str(v); add(s.data(), s.size()); out.push_back(';'); } };
typedef std::function<Res()> Run;
struct Job { std::string name; Run run; };
struct Shared { cry_mpi *v[4]; bi val[4]; cry_ecp_grp *g; Curve cv; } sh; // const operands used by all threads
struct Num { cry_mpi m; explicit Num(const bi &v) { mpi_make(&m, v, 0); } Num() { mpi_make(&m, 0, 0); } ~Num() { cry_mpi_clear(&m); } Num(const Num &) = delete; };
struct Point { cry_ecp p; explicit Point(const Pt &v) { mpi_make(&p.x, v.inf ? bi(1) : v.x, 0); mpi_make(&p.y, v.inf ? bi(1) : v.y, 0); mpi_make(&p.z, v.inf ? 0 : 1, 0); } ~Point() { cry_ecp_clear(&p); } Point(const Point &) = delete; };
struct Group { cry_ecp_grp g; explicit Group(const Curve &c) { mpi_make(&g.p, c.p, 0); mpi_make(&g.a, c.a, 0); mpi_make(&g.b, c.b, 0); mpi_make(&g.n, c.n, 0); mpi_make(&g.g.x, c.g.x, 0); mpi_make(&g.g.y, c.g.y, 0); mpi_make(&g.g.z, 1, 0); } ~Group() { cry_ecp_grp_clear(&g); } Group(const Group &) = delete; };
void grp_fill(cry_ecp_grp *g, const Curve &c) { mpi_make(&g->p, c.p, 0); mpi_make(&g->a, c.a, 0); mpi_make(&g->b, c.b, 0); mpi_make(&g->n, c.n, 0); mpi_make(&g->g.x, c.g.x, 0); mpi_make(&g->g.y, c.g.y, 0); mpi_make(&g->g.z, 1, 0); }

// the kind of work within a job family; in a pinned run all jobs draw the same one, so that the threads meet in the same function
bool pinned; int pins[12] = {-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1};
unsigned sub(int slot, unsigned n) { if (!pinned) return choose(n); if (pins[slot] < 0) pins[slot] = (int)choose(n); return (unsigned)pins[slot]; }

int cidx() { return (int)(choose(5) ? choose(2) : choose(14)); } // mostly short scalars: more runs, the same functions

Job job_digest()
{
    int kind = (int)sub(0, 13); Bytes key; if (kind >= 5 && kind < 8) key = bytes(choose(100)); else if (kind == 8) key = bytes(16 + 8 * choose(3));
    Bytes m = bytes(choose(200)); std::vector<size_t> cut;
    if ((kind < 5 || kind > 8) && sub(1, 3) == 2) return {std::string(dig_names[kind]) + "-one-shot", [=] { Res r; uint8_t *b = ubuf_copy(m), *o = ubuf(64); uint32_t v = 0; size_t n = m.size();
        switch (kind) { case 0: cry_md5(o, b, n); r.add(o, 16); break; case 1: cry_sha1(o, b, n); r.add(o, 20); break; case 2: cry_sha256(o, b, n); r.add(o, 32); break; case 3: cry_sha384(o, b, n); r.add(o, 48); break; case 4: cry_sha512(o, b, n); r.add(o, 64); break;
        case 9: v = cry_crc16_ccitt(b, n); break; case 10: v = cry_crc16_ibm(b, n); break; case 11: v = cry_crc16_dnp(b, n); break; default: v = cry_crc32_eth(b, n); }
        r.add(&v, 4); return r; }};
 size_t off = 0; while (off < m.size()) { size_t l = choose(2) ? m.size() - off : 1 + choose(90); l = std::min(l, m.size() - off); cut.push_back(l); off += l; }
    return {dig_names[kind], [=] { Res r; Dig d(kind); if (d.keyed()) d.set_key(key); uint8_t *b = ubuf_copy(m), *o = ubuf(d.size()); d.init(); size_t p = 0; for (size_t l : cut) { d.update(b + p, l); p += l; } d.digest(o); r.add(o, d.size()); return r; }};
}
Job job_cipher()
{
    static int pm = -1, pbc; int m, bc; if (pinned && pm >= 0) { m = pm; bc = pbc; } else Ciph::pick(m, bc); pm = m; pbc = bc; auto c = std::make_shared<Ciph>(m, bc); c->choose_key(); c->choose_iv(); bool enc = choose(2); size_t n = choose(m == TRIV || m == CFB8 ? 60 : 200); if (!c->partial_last()) n -= n % c->bs(); Bytes p = bytes(n), aad = bytes(choose(30)); unsigned style = choose(5);
    std::vector<size_t> cut; size_t off = 0; for (unsigned k = 0; off < n && k < 60; k++) { size_t l = segment(*c, style, n - off); cut.push_back(l); off += l; } if (off < n) cut.push_back(n - off);
    return {mode_names[m], [=] { Res r; Ciph x(m, bc); x.key = c->key; x.iv = c->iv; x.init(); uint8_t *k = ubuf_copy(x.key), *v = ubuf_copy(x.iv), *b = ubuf_copy(p), *ad = ubuf_copy(aad); x.key_set(k, x.key.size()); if (x.has_iv()) x.iv_set(v, x.iv.size());
        if (m == GCM) cry_gcm_update((cry_gcm_ctx *)x.outer, ad, aad.size()); size_t q = 0; for (size_t l : cut) { x.crypt(enc, b + q, b + q, l); q += l; } r.add(b, n); if (m == GCM) { uint8_t *t = ubuf(16); cry_gcm_digest((cry_gcm_ctx *)x.outer, t, 16); r.add(t, 16); } x.clear(); return r; }};
}
Job job_wrap()
{
    Bytes k = bytes(16 + 8 * choose(3)), m = bytes(16 + 8 * choose(3)); bool bad = choose(3) == 0; return {"aes-wrap", [=] { Res r; uint8_t *kb = ubuf_copy(k), *b = ubuf_copy(m), *o = ubuf(m.size() + 8), *u = ubuf(m.size()); r.err |= cry_aes_wrap(o, b, m.size(), kb, k.size()) != 0; r.add(o, m.size() + 8); if (bad) { o[3] ^= 16; r.out.push_back(cry_aes_unwrap(u, o, m.size(), kb, k.size()) == 0); r.soft = true; return r; } r.err |= cry_aes_unwrap(u, o, m.size(), kb, k.size()) != 0; r.add(u, m.size()); return r; }};
}
Job job_misc()
{
    switch (sub(2, 4)) {
    case 3: { size_t n = 1 + choose(4); Bytes m = bytes(n * (1 + choose(8))), k = bytes(n * n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j <= i; j++) k[i * n + j] = i == j ? (uint8_t)(k[i * n + j] | 1) : (uint8_t)(k[i * n + j] & 0xfe); // odd diagonal, even below it: invertible
        return {"hill", [=] { Res r; cry_hill_ctx *c = uobj<cry_hill_ctx>(); uint8_t *b = ubuf_copy(m), *o = ubuf(m.size()), *u = ubuf(m.size()), *kb = ubuf_copy(k); r.err = cry_hill_init(c, kb, nullptr, k.size()) != 0; if (!r.err) { cry_hill_encrypt(c, o, b, m.size()); r.add(o, m.size()); cry_hill_decrypt(c, u, o, m.size()); r.add(u, m.size()); } return r; }}; }
    case 0: { Bytes m = bytes(1 + choose(80)); return {"base64", [=] { Res r; uint8_t *b = ubuf_copy(m), *o = ubuf(4 * ((m.size() + 2) / 3) + 8), *u = ubuf(m.size() + 8); size_t l = cry_base64_encode((char *)o, (char *)b, m.size()); r.add(o, l); size_t k = cry_base64_decode((char *)u, (char *)o, l); r.add(u, k); return r; }}; }
    case 1: { Bytes m = bytes(choose(100)), k = bytes(100); size_t d = choose(50); return {"memxor", [=] { Res r; r.soft = true; /* without memory: the known finding of C14 */ uint8_t *a = ubuf(300), *b = ubuf_copy(k); memset(a, 7, 300); cry_memxor(a + d, a + 20, 60); cry_memxor2(a + 100, b, a + 90, 80); r.add(a, 300); return r; }}; }
    default: { Bytes m = bytes(1 + choose(60)); uint8_t ka = (uint8_t)(choose(128) * 2 + 1), kb = (uint8_t)choose(256); return {"affine", [=] { Res r; cry_affine_ctx *c = uobj<cry_affine_ctx>(); uint8_t *b = ubuf_copy(m), *o = ubuf(m.size()); unsigned char a1[1] = {ka}, b1[1] = {kb}; r.err |= cry_affine_init(c, a1, b1, 1) != 0; cry_affine_encrypt(c, o, b, m.size()); r.add(o, m.size()); cry_affine_decrypt(c, b, o, m.size()); r.add(b, m.size()); return r; }}; }
    }
}
Job job_mpi()
{
    size_t lim = choose(6) ? 220 : 2400; bi a = gen_nonneg(lim), b = gen_nonneg(lim), m = gen_nonneg(130); if (m < 3) m = 1000003; if (b == 0) b = 7; unsigned op = sub(3, 20); unsigned si = choose(4); bool share = choose(3) == 0; if (choose(3) == 0 && op < 3) a = -a; unsigned radix = 2 + choose(15); size_t sft = choose(200);
    if (op > 13) { Rng g(subseed()); a = gen_bits(190 + choose(300), g); b = gen_bits(190 + choose(300), g) + 5; }
    if ((op == 2 || op == 8) && sub(8, 5) == 0) { Rng g(subseed()); size_t n = sub(9, 6) ? 4200 + choose(2200) : 19300 + choose(600); a = gen_bits(n, g); b = gen_bits(n, g); share = false; probe("big-product"); } // over the Karatsuba and Toom-Cook thresholds
    if (share) { b = sh.val[si]; if (op == 4 || op == 5) { m = sh.val[si] | 0; } }
    static const char *nm[] = {"mpi-add", "mpi-sub", "mpi-mul", "mpi-div", "mpi-mod_exp", "mpi-inv", "mpi-gcd", "mpi-lcm", "mpi-sqr", "mpi-shift", "mpi-str", "mpi-bin", "mpi-sqrt", "mpi-exp", "mpi-mul-karatsuba", "mpi-mul-toom3", "mpi-sqr-karatsuba", "mpi-mul-baseline", "mpi-mul-comba", "mpi-sqr-baseline"};
    if ((op == 4 || op == 5) && a > (bi(1) << 140)) a >>= bi_bits(a) - 140; if ((op == 4) && b > (bi(1) << 140) && !share) b >>= bi_bits(b) - 100;
    return {std::string(nm[op]) + (share ? "-shared" : ""), [=] {
        Res r; Num A(a), B(share ? bi(0) : b), M(m), X, Y; const cry_mpi *pb = share ? sh.v[si] : &B.m;
        switch (op) {
        case 0: r.err = cry_mpi_add(&X.m, &A.m, pb); break; case 1: r.err = cry_mpi_sub(&X.m, &A.m, pb); break; case 2: r.err = cry_mpi_mul(&X.m, &A.m, pb); break;
        case 3: r.err = cry_mpi_div(&X.m, &Y.m, &A.m, pb); break; case 4: r.err = cry_mpi_mod_exp(&X.m, &A.m, pb, share ? sh.v[(si + 1) % 4] : &M.m); break; case 5: r.err = cry_mpi_inv(&X.m, &A.m, share ? pb : &M.m) ? 1 : 0; if (r.err && bi_gcd(a, share ? b : m) != 1) { r.err = 0; r.out = {'n'}; return r; } break;
        case 6: r.err = cry_mpi_gcd(&X.m, &A.m, pb); break; case 7: r.err = cry_mpi_lcm(&X.m, &A.m, pb); break; case 8: r.err = cry_mpi_sqr(&X.m, pb); break;
        case 9: r.err = cry_mpi_shl(&X.m, pb, sft); if (!r.err) r.err = cry_mpi_shr(&Y.m, pb, sft); break;
        case 10: { char *s = (char *)ubuf(3000); memset(s, 0, 3000); r.err = cry_mpi_store_str(pb, radix, s); if (!r.err) { r.add(s, strlen(s)); r.err = cry_mpi_load_str(&X.m, radix, s); } break; }
        case 11: { uint8_t *s = ubuf(400); memset(s, 0, 400); r.err = cry_mpi_store_bin(pb, s, 400, 1); if (!r.err) { r.add(s, 400); r.err = cry_mpi_load_bin(&X.m, s, 400); } break; }
        case 12: r.err = cry_mpi_sqrt(&X.m, pb); break;
        case 14: r.err = cry_mpi_mul_karatsuba(&X.m, &A.m, pb); break; case 15: r.err = cry_mpi_mul_toom3(&X.m, &A.m, pb); break; case 16: r.err = cry_mpi_sqr_karatsuba(&X.m, pb); break;
        case 17: r.err = cry_mpi_mul_baseline(&X.m, &A.m, pb); break; case 18: r.err = cry_mpi_mul_comba(&X.m, &A.m, pb); break; case 19: r.err = cry_mpi_sqr_baseline(&X.m, pb); break;
        default: { Num e(5); r.err = cry_mpi_exp(&X.m, pb, &e.m); }
        }
        if (!r.err) { r.num(&X.m); r.num(&Y.m); } return r; }};
}
Job job_ec()
{
    bool share = choose(2); Curve cv = share ? sh.cv : ordered_curve(cidx()); Rng g(subseed()); Pt P = cv.mul(cv.g, 1 + bi_mod(gen_bits(80, g), cv.n - 1)), Q = choose(4) ? cv.mul(cv.g, 1 + bi_mod(gen_bits(80, g), cv.n - 1)) : P; bi k = bi_mod(gen_bits(80, g), cv.n); unsigned op = choose(4);
    static const char *nm[] = {"ecp-mul", "ecp-add", "ecp-dbl", "ecp-mul-g"};
    return {std::string(nm[op]) + (share ? "-shared" : ""), [=] { Res r; Group own(cv); const cry_ecp_grp *gr = share ? sh.g : &own.g; Point p(P), q(Q), o{Pt()}; Num K(k);
        r.err = op == 0 ? cry_ecp_mul(&o.p, &p.p, &K.m, gr) : op == 1 ? cry_ecp_add(&o.p, &p.p, &q.p, gr) : op == 2 ? cry_ecp_dbl(&o.p, &p.p, gr) : cry_ecp_mul(&o.p, &gr->g, &K.m, gr);
        if (!r.err) { Pt v = pt_val(&o.p, "point", false); std::string s = pt_str(v); r.add(s.data(), s.size()); } return r; }};
}
Job job_verify()
{
    Bytes m = bytes(choose(40)); bool good = choose(3) != 0; Rng g(subseed());
    switch (sub(4, 6)) {
    case 4: { ElgKey k = elg_key(40 + choose(30)); m.resize(std::min<size_t>(m.size(), 5)); bi r, s, z = bi_from_be(m.data(), m.size()); for (;;) { bi n = 1 + bi_mod(gen_bits(90, g), k.p - 2); if (bi_gcd(n, k.p - 1) != 1) continue; r = bi_powm(k.g, n, k.p); s = bi_mod((z - k.d * r) * bi_inv(n, k.p - 1), k.p - 1); if (s != 0) break; } if (!good) s = bi_mod(s + 1, k.p - 1);
        return {"elgamal-verify", [=] { Res o; cry_elgamal_ctx *c = uobj<cry_elgamal_ctx>(); mpi_make(&c->p, k.p); mpi_make(&c->g, k.g); mpi_make(&c->y, k.y); mpi_make(&c->d, 0); cry_elgamal_sig sg; mpi_make(&sg.r, r); mpi_make(&sg.s, s); uint8_t *b = ubuf_copy(m); int x = cry_elgamal_verify2(c, &sg, b, m.size()); o.soft = true; o.out = {(uint8_t)(x == 0)}; cry_elgamal_clear(c); cry_mpi_clear(&sg.r); cry_mpi_clear(&sg.s); return o; }}; }
    case 5: { Curve cv = ordered_curve(cidx()); bi d = 1 + bi_mod(gen_bits(90, g), cv.n - 1); Pt Q = cv.mul(cv.g, 1 + bi_mod(gen_bits(90, g), cv.n - 1));
        return {"ecdh", [=] { Res o; cry_ecdh_ctx *c = uobj<cry_ecdh_ctx>(); grp_fill(&c->ec, cv); mpi_make(&c->d, d); for (cry_ecp *p : {&c->q, &c->z}) { mpi_make(&p->x, 0); mpi_make(&p->y, 0); mpi_make(&p->z, 0); }
            auto out = [&](const cry_ecp *p) { std::string t = pt_str(pt_val(p, "point", false)); o.add(t.data(), t.size()); };
            o.err = cry_ecdh_agree(c); if (!o.err) { out(&c->q); mpi_drop(&c->q.x); mpi_make(&c->q.x, Q.x); mpi_drop(&c->q.y); mpi_make(&c->q.y, Q.y); mpi_drop(&c->q.z); mpi_make(&c->q.z, 1); o.err = cry_ecdh_final(c); if (!o.err) out(&c->z); } cry_ecdh_clear(c); return o; }}; }
    case 0: { DsaKey k = dsa_params(32 + choose(2) * 40, 120); bi r, s; for (;;) { bi n = 1 + bi_mod(gen_bits(100, g), k.q - 1); r = bi_powm(k.g, n, k.p) % k.q; s = bi_mod((left_bits(m, k.q) + k.x * r) * bi_inv(n, k.q), k.q); if (r != 0 && s != 0) break; } if (!good) s = bi_mod(s + 1, k.q);
        return {"dsa-verify", [=] { Res o; cry_dsa_ctx *c = uobj<cry_dsa_ctx>(); mpi_make(&c->p, k.p); mpi_make(&c->q, k.q); mpi_make(&c->g, k.g); mpi_make(&c->pub, k.y); mpi_make(&c->pvt, 0); cry_dsa_sig sg; mpi_make(&sg.r, r); mpi_make(&sg.s, s); uint8_t *b = ubuf_copy(m); int x = cry_dsa_verify(c, &sg, b, m.size()); o.soft = true; o.out = {(uint8_t)(x == 0)}; cry_dsa_clear(c); cry_mpi_clear(&sg.r); cry_mpi_clear(&sg.s); return o; }}; }
    case 1: { EcdsaKey k; k.c = ordered_curve(cidx()); k.d = 1 + bi_mod(gen_bits(100, g), k.c.n - 1); k.q = k.c.mul(k.c.g, k.d); bi r, s; for (;;) { bi n = 1 + bi_mod(gen_bits(100, g), k.c.n - 1); r = k.c.mul(k.c.g, n).x % k.c.n; s = bi_mod((left_bits(m, k.c.n) + k.d * r) * bi_inv(n, k.c.n), k.c.n); if (r != 0 && s != 0) break; } if (!good) s = bi_mod(s + 1, k.c.n);
        return {"ecdsa-verify", [=] { Res o; cry_ecdsa_ctx *c = uobj<cry_ecdsa_ctx>(); grp_fill(&c->grp, k.c); mpi_make(&c->d, 0); mpi_make(&c->q.x, k.q.x); mpi_make(&c->q.y, k.q.y); mpi_make(&c->q.z, 1); cry_ecdsa_sig sg; mpi_make(&sg.r, r); mpi_make(&sg.s, s); uint8_t *b = ubuf_copy(m); int x = cry_ecdsa_verify(c, &sg, b, m.size()); o.soft = true; o.out = {(uint8_t)(x == 0)}; cry_ecdsa_clear(c); cry_mpi_clear(&sg.r); cry_mpi_clear(&sg.s); return o; }}; }
    case 2: { RsaKey k = rsa_key(96 + 8 * choose(5)); Bytes t = bytes(1 + choose((uint32_t)k.k() - 1)); bool padded = choose(2), bad = choose(3) == 0; if (padded && t.size() > k.k() - 11) t.resize(k.k() - 11); if (!padded) t[0] = 0; return {"rsa", [=] { Res o; cry_rsa_ctx *c = uobj<cry_rsa_ctx>(); if (cry_rsa_init(c, padded ? CRY_RSA_PADDING_PKCS_V15 : CRY_RSA_PADDING_NONE) != 0) { o.err = 1; return o; } mpi_drop(&c->n); mpi_make(&c->n, k.n); mpi_drop(&c->e); mpi_make(&c->e, k.e); mpi_drop(&c->d); mpi_make(&c->d, k.d); uint8_t *b = ubuf_copy(t), *out = nullptr; size_t ol = 0; o.err = cry_rsa_sign(c, &out, &ol, b, t.size()); if (!o.err) { o.add(out, ol); if (bad) out[ol - 1] ^= 1; o.out.push_back(cry_rsa_verify(c, out, ol, b, t.size()) == 0); o.soft = true; sim_free(out); } cry_rsa_clear(c); return o; }}; }
    default: { bi p = gen_prime(60 + choose(60), g), gg = 2 + g.below(99), e = gen_bits(70, g) + 1, y = bi_powm(gg, gen_bits(60, g) + 1, p); return {"dh", [=] { Res o; cry_dh_ctx *c = uobj<cry_dh_ctx>(); if (cry_dh_init(c) != 0) { o.err = 1; return o; } mpi_drop(&c->p); mpi_make(&c->p, p); mpi_drop(&c->g); mpi_make(&c->g, gg); mpi_drop(&c->e); mpi_make(&c->e, e); o.err = cry_dh_agree(c); if (!o.err) { o.num(&c->Y); Bytes yb = bi_to_be(y, 20); uint8_t *b = ubuf_copy(yb); o.err = cry_dh_set_tok(c, b, 20); if (!o.err) o.err = cry_dh_finalize(c); if (!o.err) { uint8_t *s = ubuf(20); o.err = cry_dh_get_sec(c, s, 20); if (!o.err) o.add(s, 20); } } cry_dh_clear(c); return o; }}; }
    }
}
// jobs that draw random numbers: the source gives each job a stream of its own, so the job alone draws the same bytes
Job job_random()
{
    Bytes m = bytes(1 + choose(40)); Rng g(subseed()); uint64_t seed = subseed() + 1ull, fa = choose(4) ? ~0ull : choose(choose(2) ? 2 : 12); /* the source may fail one draw of this job */ auto pt = [](Res &o, const cry_ecp *p) { std::string t = pt_str(pt_val(p, "point", false)); o.add(t.data(), t.size()); };
    switch (sub(6, 10)) {
    case 0: case 9: { DsaKey k = dsa_params(32 + choose(2) * 40, 120);
        return {"dsa-sign", [=] { prng_own(seed, fa); Res o; o.mayfail = fa != ~0ull; cry_dsa_ctx *c = uobj<cry_dsa_ctx>(); mpi_make(&c->p, k.p); mpi_make(&c->q, k.q); mpi_make(&c->g, k.g); mpi_make(&c->pub, 0); mpi_make(&c->pvt, k.x); cry_dsa_sig sg; mpi_make(&sg.r, 0); mpi_make(&sg.s, 0); uint8_t *b = ubuf_copy(m); o.err = cry_dsa_sign(c, &sg, b, m.size()); if (!o.err) { o.num(&sg.r); o.num(&sg.s); } cry_dsa_clear(c); cry_mpi_clear(&sg.r); cry_mpi_clear(&sg.s); return o; }}; }
    case 1: { Curve cv = ordered_curve(cidx()); bi d = 1 + bi_mod(gen_bits(100, g), cv.n - 1); bool kg = choose(3) == 0;
        return {"ecdsa-sign", [=] { prng_own(seed, fa); Res o; o.mayfail = fa != ~0ull; cry_ecdsa_ctx *c = uobj<cry_ecdsa_ctx>(); grp_fill(&c->grp, cv); mpi_make(&c->d, kg ? bi(0) : d); for (cry_mpi *x : {&c->q.x, &c->q.y, &c->q.z}) mpi_make(x, 0); cry_ecdsa_sig sg; mpi_make(&sg.r, 0); mpi_make(&sg.s, 0); uint8_t *b = ubuf_copy(m);
            if (kg) o.err = cry_ecdsa_keygen(c); if (!o.err && kg) { o.num(&c->d); pt(o, &c->q); } if (!o.err) o.err = cry_ecdsa_sign(c, &sg, b, m.size()); if (!o.err) { o.num(&sg.r); o.num(&sg.s); } cry_ecdsa_clear(c); cry_mpi_clear(&sg.r); cry_mpi_clear(&sg.s); return o; }}; }
    case 2: case 3: { ElgKey k = elg_key(40 + choose(30)); m.resize(std::min<size_t>(m.size(), 5)); bool two = choose(2);
        return {"elgamal-sign", [=] { prng_own(seed, fa); Res o; o.mayfail = fa != ~0ull; cry_elgamal_ctx *c = uobj<cry_elgamal_ctx>(); mpi_make(&c->p, k.p); mpi_make(&c->g, k.g); mpi_make(&c->y, k.y); mpi_make(&c->d, k.d); uint8_t *b = ubuf_copy(m);
            if (two) { cry_elgamal_sig sg; mpi_make(&sg.r, 0); mpi_make(&sg.s, 0); o.err = cry_elgamal_sign2(c, &sg, b, m.size()); if (!o.err) { o.num(&sg.r); o.num(&sg.s); } cry_mpi_clear(&sg.r); cry_mpi_clear(&sg.s); }
            else { uint8_t *s = ubuf(64); o.err = cry_elgamal_sign(c, s, b, m.size()); if (!o.err) { o.add(s, 2 * ((bi_bits(k.p) + 7) / 8)); int x = cry_elgamal_verify(c, s, b, m.size()); o.soft = true; o.out.push_back(x == 0); } }
            cry_elgamal_clear(c); return o; }}; }
    case 4: case 5: { RsaKey k = rsa_key(96 + 8 * choose(5)); Bytes t = bytes(1 + choose((uint32_t)k.k() - 11)); bool padded = choose(4), bad = choose(4) == 0; if (!padded) t[0] = 1;
        return {"rsa-crypt", [=] { prng_own(seed, fa); Res o; o.mayfail = fa != ~0ull; cry_rsa_ctx *c = uobj<cry_rsa_ctx>(); if (cry_rsa_init(c, padded ? CRY_RSA_PADDING_PKCS_V15 : CRY_RSA_PADDING_NONE) != 0) { o.err = 1; return o; } mpi_drop(&c->n); mpi_make(&c->n, k.n); mpi_drop(&c->e); mpi_make(&c->e, k.e); mpi_drop(&c->d); mpi_make(&c->d, k.d); uint8_t *b = ubuf_copy(t), *out = nullptr, *bk = nullptr; size_t ol = 0, bl = 0; o.err = cry_rsa_encrypt(c, &out, &ol, b, t.size()); if (!o.err) { o.add(out, ol); if (bad) { out[ol / 2] ^= 0x5a; int x = cry_rsa_decrypt(c, &bk, &bl, out, ol); o.soft = true; o.out.push_back(x == 0); if (x == 0) { o.add(bk, bl); sim_free(bk); } } else { o.err = cry_rsa_decrypt(c, &bk, &bl, out, ol); if (!o.err) { o.add(bk, bl); sim_free(bk); } } sim_free(out); } cry_rsa_clear(c); return o; }}; }
    case 6: { bi p = choose(2) ? gen_prime(20 + choose(60), g) : gen_bits(20 + choose(60), g) | 1; return {"is-prime", [=] { prng_own(seed, fa); Res o; o.mayfail = fa != ~0ull; Num a(p); int x = cry_mpi_is_prime(&a.m); o.err = x < 0; o.out = {(uint8_t)x}; return o; }}; }
    case 7: { size_t n = 1 + choose(200); bi mx = 1 + gen_bits(1 + choose(200), g); bool range = choose(2); return {"mpi-rand", [=] { prng_own(seed, fa); Res o; o.mayfail = fa != ~0ull; Num a, b(mx); o.err = range ? cry_mpi_rand_range(&a.m, &b.m) : cry_mpi_rand(&a.m, n); if (!o.err) o.num(&a.m); return o; }}; }
    case 8: if (choose(4)) { size_t n = 1 + choose(3), bits = 8 * (1 + choose(3)); bool hill = choose(2);
        return {hill ? "hill-keygen" : "mpi-prime", [=] { prng_own(seed, fa); Res o; o.mayfail = fa != ~0ull; if (hill) { cry_hill_ctx *c = uobj<cry_hill_ctx>(); o.err = cry_hill_init(c, nullptr, nullptr, n * n) != 0; if (!o.err) { o.add(c->key, n * n); o.add(c->ikey, n * n); } } else { Num a; o.err = cry_mpi_prime(&a.m, bits, nullptr); if (!o.err) o.num(&a.m); } return o; }}; }
    [[fallthrough]]; default: { size_t bits = 32; return {"rsa-keygen", [=] { prng_own(seed, fa); Res o; o.mayfail = fa != ~0ull; cry_rsa_ctx *c = uobj<cry_rsa_ctx>(); if (cry_rsa_init(c, CRY_RSA_PADDING_NONE) != 0) { o.err = 1; return o; } o.err = cry_rsa_keygen(c, bits, 17); if (!o.err) { o.num(&c->n); o.num(&c->d); o.num(&c->p); o.num(&c->q); } cry_rsa_clear(c); return o; }}; }
    }
}
Job job_group() { int id = (int)choose(11); return {"grp-load", [=] { Res o; cry_ecp_grp *g = uobj<cry_ecp_grp>(); o.err = cry_ecp_grp_load(g, id); if (!o.err) { o.num(&g->p); o.num(&g->b); o.num(&g->n); o.num(&g->g.x); cry_ecp_grp_clear(g); } return o; }}; }
Job make_job() { unsigned w[] = {5, 6, 1, 1, 6, 3, 2, 3, 1}; switch (pick_weighted(w, 9)) { case 0: return job_digest(); case 1: return job_cipher(); case 2: return job_wrap(); case 3: return job_misc(); case 4: return job_mpi(); case 5: return job_ec(); case 6: return job_verify(); case 7: return job_random(); default: return job_group(); } }
}
extern "C" void scenario()
{
    PrngCfg pc; pc.seed = subseed(); prng_set(pc);
    for (int i = 0; i < 4; i++) { sh.val[i] = gen_nonneg(160); if (sh.val[i] < 3) sh.val[i] = 101 + i; sh.v[i] = uobj<cry_mpi>(); mpi_make(sh.v[i], sh.val[i], 0); readonly(sh.v[i], sizeof(cry_mpi)); hot_region(sh.v[i], sizeof(cry_mpi)); hot_region(sh.v[i]->data, sh.v[i]->alloc * sizeof(cry_mpi_digit)); }
    sh.cv = ordered_curve(cidx()); sh.g = uobj<cry_ecp_grp>(); grp_fill(sh.g, sh.cv); readonly(sh.g, sizeof *sh.g); hot_region(sh.g, sizeof *sh.g); for (const cry_mpi *m : {&sh.g->p, &sh.g->a, &sh.g->b, &sh.g->n, &sh.g->g.x, &sh.g->g.y, &sh.g->g.z}) hot_region(m->data, m->alloc * sizeof(cry_mpi_digit));
    unsigned nt = 2 + (choose(3) == 2 ? choose(3) : 0); std::vector<std::vector<Job>> jobs(nt); std::vector<std::vector<Res>> res(nt);
    bool same = choose(3); pinned = same && choose(3); if (pinned) probe("same-function"); // often the same kind of work on all threads: hidden state collides
    uint32_t kind = choose(9);
    for (unsigned t = 0; t < nt; t++) for (unsigned i = 0, n = 1 + choose(4); i < n; i++) { Job j = same ? (kind == 0 ? job_digest() : kind == 1 ? job_cipher() : kind == 2 ? job_mpi() : kind == 3 ? job_ec() : kind == 4 ? job_verify() : kind == 5 || kind == 7 || kind == 8 ? (sub(7, 8) ? job_random() : job_group()) : kind == 6 ? (sub(5, 3) ? job_misc() : job_wrap()) : job_digest()) : make_job(); evs("job", std::to_string(t) + ":" + j.name); probe(j.name.c_str()); jobs[t].push_back(j); }
    unsigned fm = choose(3) == 2 ? choose(4) ? 1u << choose(nt) : ~0u : 0; for (unsigned t = 0; t < nt; t++) if (fm >> t & 1) { Plan p = choose_plan(1 + choose(60)); thread_fault_plan((int)t, p); evs("faults on thread", std::to_string(t) + " " + p.str()); }
    std::vector<std::function<void()>> bodies; for (unsigned t = 0; t < nt; t++) bodies.push_back([&, t] { for (auto &j : jobs[t]) res[t].push_back(j.run()); });
    static const unsigned q[] = {4, 20, 100, 600, 4000}; run_threads(bodies, 4 + choose(choose(3) ? 60 : 1500), q[choose(5)]);
    for (unsigned t = 0; t < nt; t++) if ((fm >> t & 1) && thread_faults((int)t)) probe("thread-with-alloc-faults");
    for (int i = 0; i < 4; i++) mpi_expect(sh.v[i], sh.val[i], "operand-changed", "shared operand"); grp_expect(sh.g, sh.cv, "operand-changed");
    for (unsigned t = 0; t < nt; t++) { // the same jobs alone, afterwards (nothing may have been initialised by them before)
        bool hit = (fm >> t & 1) && thread_faults((int)t);
        for (size_t i = 0; i < jobs[t].size(); i++) {
            Res a = jobs[t][i].run(), &r = res[t][i]; prng_own(0); if (a.err && !a.mayfail) violation("spurious-error", "%s fails alone", jobs[t][i].name.c_str());
            if (hit) { probe(r.err ? "faulted-job:error" : "faulted-job:ok"); if (!r.err && !a.err && !r.soft && r.out != a.out) violation("wrong-value-after-fault", "%s on thread %u, hit by an allocation failure, reports success with another result than alone", jobs[t][i].name.c_str(), t); continue; }
            if (r.err && a.err) { probe("same-error"); continue; }
            if (a.err) violation("thread-interference", "%s on thread %u reports success when other threads run, but fails alone", jobs[t][i].name.c_str(), t);
            if (r.err) violation("thread-interference", "%s on thread %u fails when other threads run, although no fault hit it", jobs[t][i].name.c_str(), t);
            if (r.out != a.out) violation("thread-interference", "%s on thread %u gives another result than alone", jobs[t][i].name.c_str(), t);
            probe("jobs-compared");
        }
    }
    for (int i = 0; i < 4; i++) { readonly_drop(sh.v[i]); cry_mpi_clear(sh.v[i]); } readonly_drop(sh.g); cry_ecp_grp_clear(sh.g);
}

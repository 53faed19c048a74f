// Models of the public-key schemes and builders of keys for the library, shared by the scenarios.
#pragma once
#include "ec.h"
#include "ref.h"
extern "C" {
#include <cry/rsa.h>
#include <cry/dsa.h>
#include <cry/ecdsa.h>
#include <cry/elgamal.h>
#include <cry/dh.h>
#include <cry/ecdh.h>
}
typedef ref::B Bytes;
// leftmost bits(q) bits of the message, as FIPS 186 has it
static inline bi left_bits(const Bytes &m, const bi &q) { bi z = bi_from_be(m.data(), m.size()); size_t b = bi_bits(q); if (m.size() * 8 > b) z >>= (m.size() * 8 - b); return z; }

struct DsaKey {
    bi p, q, g, x, y;
    bool accept(const Bytes &m, const bi &r, const bi &s) const {
        if (r <= 0 || r >= q || s <= 0 || s >= q) return false;
        bi z = left_bits(m, q), w = bi_inv(s, q);
        return bi_powm(g, z * w % q, p) * bi_powm(y, r * w % q, p) % p % q == r;
    }
    bool healthy(const Bytes &m) const { // a random nonce gives a proper signature often enough
        if (q > 2000) return true;
        bi z = left_bits(m, q); unsigned good = 0, all = (unsigned)q - 1; bi gk = 1;
        for (unsigned k = 1; k <= all; k++) { gk = gk * g % p; bi r = gk % q; if (r != 0 && (z + x * r) % q != 0) good++; }
        return good * 2 >= all;
    }
};
// q of qb bits, p of about pb bits
static inline DsaKey dsa_params(size_t qb, size_t pb)
{
    sim::Rng r(sim::subseed()); DsaKey k;
    for (;;) {
        k.q = gen_prime(qb, r);
        for (int i = 0; i < 3000; i++) {
            bi m = (gen_bits(pb - qb, r) | (bi(1) << (pb - qb - 1))) * 2; k.p = k.q * m + 1;
            if (!bi_is_prime(k.p)) continue;
            for (int j = 2; j < 60; j++) { k.g = bi_powm(j, m, k.p); if (k.g > 1) break; }
            if (k.g <= 1) break;
            k.x = 1 + bi_mod(gen_bits(qb + 8, r), k.q - 1); k.y = bi_powm(k.g, k.x, k.p); return k;
        }
    }
}
struct EcdsaKey {
    Curve c; bi d; Pt q;
    bool accept(const Bytes &m, const bi &r, const bi &s) const {
        if (r <= 0 || r >= c.n || s <= 0 || s >= c.n) return false;
        bi z = left_bits(m, c.n), w = bi_inv(s, c.n); Pt R = c.add(c.mul(c.g, z * w % c.n), c.mul(q, r * w % c.n));
        return !R.inf && R.x % c.n == r;
    }
    bool healthy(const Bytes &m) const {
        if (c.n > 2000) return true;
        bi z = left_bits(m, c.n); unsigned good = 0, all = (unsigned)c.n - 1; Pt R;
        for (unsigned k = 1; k <= all; k++) { R = c.add(R, c.g); bi r = R.x % c.n; if (r != 0 && (z + d * r) % c.n != 0) good++; }
        return good * 2 >= all;
    }
};
struct ElgKey {
    bi p, g, d, y;
    bool accept(const Bytes &m, const bi &r, const bi &s) const {
        if (r <= 0 || r >= p || s <= 0 || s >= p - 1) return false;
        bi z = bi_from_be(m.data(), m.size()); return bi_powm(y, r, p) * bi_powm(r, s, p) % p == bi_powm(g, z, p);
    }
    bool healthy(const Bytes &m) const {
        if (p > 2000) return true;
        bi z = bi_from_be(m.data(), m.size()); unsigned good = 0, all = 0, P = (unsigned)p; bi gk = 1;
        for (unsigned k = 1; k < P - 1; k++) { gk = gk * g % p; if (bi_gcd(k, p - 1) != 1) continue; all++; if (bi_mod(z - d * gk, p - 1) != 0) good++; }
        return all && good * 2 >= all && all * 40 >= P;
    }
};
static inline ElgKey elg_key(size_t bits)
{
    sim::Rng r(sim::subseed()); ElgKey k;
    for (;;) { // p = 2 q' + 1 for bigger ones so that nonces are easy to find; any prime otherwise
        if (bits > 20) { bi h = gen_prime(bits - 1, r); k.p = 2 * h + 1; if (!bi_is_prime(k.p)) continue; }
        else k.p = gen_prime(bits, r);
        if (k.p < 11) continue;
        break;
    }
    k.g = 2 + bi_mod(gen_bits(bits + 8, r), k.p - 3); k.d = 1 + bi_mod(gen_bits(bits + 8, r), k.p - 2); k.y = bi_powm(k.g, k.d, k.p); return k;
}
struct RsaKey {
    bi n, e, d, p, q; size_t k() const { return (bi_bits(n) + 7) / 8; }
};
static inline RsaKey rsa_key(size_t bits)
{
    sim::Rng r(sim::subseed()); RsaKey k; static const unsigned es[] = {3, 5, 17, 257, 65537};
    for (;;) {
        size_t pb = bits / 2 + r.below((uint32_t)(bits / 8) + 1); if (bits - pb < 4) pb = bits / 2;
        k.p = gen_prime(pb, r); k.q = gen_prime(bits - pb, r); if (k.p == k.q) continue;
        k.n = k.p * k.q; bi phi = (k.p - 1) * (k.q - 1);
        k.e = r.below(3) ? bi(es[r.below(5)]) : (bi_mod(gen_bits(bits, r), phi) | 1); if (k.e < 3 || bi_gcd(k.e, phi) != 1) continue;
        k.d = bi_inv(k.e, phi); return k;
    }
}
// A modulus of about the given number of bytes, cheap to work with: n is a product of distinct primes p with p-1 | L for a smooth
// 50-bit L, so x^(ed) = x (mod n) needs only ed = 1 (mod L), and both exponents stay short.
static inline RsaKey rsa_key_large(size_t len)
{
    static const unsigned f[] = {2, 2, 2, 2, 2, 3, 3, 3, 5, 5, 7, 7, 11, 13, 17, 19, 23, 29, 31}; static std::vector<uint64_t> ps; static uint64_t L = 1;
    if (ps.empty()) {
        std::vector<uint64_t> ds = {1}; for (unsigned x : f) { L *= x; size_t m = ds.size(); for (size_t i = 0; i < m; i++) ds.push_back(ds[i] * x); std::sort(ds.begin(), ds.end()); ds.erase(std::unique(ds.begin(), ds.end()), ds.end()); }
        for (uint64_t d : ds) if (d > 1000 && d < (1ull << 40) && bi_is_prime(bi(d) + 1)) ps.push_back(d + 1);
    }
    sim::Rng r(sim::subseed()); RsaKey k; k.p = k.q = 1; static const unsigned es[] = {37, 41, 43, 257, 65537}; std::vector<uint64_t> v = ps; size_t bits = len * 8 - r.below(12);
    for (size_t i = 0; i < v.size() && bi_bits(k.p * k.q) + 20 < bits; i++) { std::swap(v[i], v[i + r.below((uint32_t)(v.size() - i))]); (i & 1 ? k.p : k.q) *= v[i]; }
    k.n = k.p * k.q; k.e = es[r.below(5)]; k.d = bi_inv(k.e, bi(L)); if (r.below(2)) std::swap(k.e, k.d); return k;
}
static inline size_t large_len() { static const unsigned b[] = {64, 128, 256, 256, 512, 512, 1024}; return b[sim::choose(7)] - 3 + sim::choose(8); }
// q and a 512-bit start value from which cry_dsa_keygen's search succeeds at once: a random stream that delivers
// them makes key generation cheap to simulate (any other order of draws is just slower)
static const char *dsa_seeds[10][2] = {
    {"e57bae11417e16c97c7dfaf5eba38bf6a8fe622b", "851d1a33a030130961eeac3769fae866d4b59c0536cdf8a1ecfcc3964671120d78aa8105735dc3271ce262d62b4c0859d26542ee46dc1a26faf8dfcdf33335b6"},
    {"cbfe2f8d24105a49c77d357f3cc6d62d44339c11", "f981eb80daf5fdcff9670c3faf6507a8e6e9df89fb998562249a2d1692280cd669cdb62d079893db2406ca3911607da8aa2eb649aa964863f2fec7000fba12cc"},
    {"c4c5c1bc68562c8dde23710e6fa9dd1f0efe3b15", "9ecfea790a0bed45cbdf190ba5dd6b9f0827a9296442689f4d10d5764bd32dc505afce5648f7249039561822d85086bde480b8edcda21f33c9e09076ff623209"},
    {"cf513da48e5e0af683cae1176d3660028b23698f", "e4c69f500c27e42f7ce8882fc05e9dc2bb09b4d5830b91c60fb1dc3c64ab411d0b234c970f15e92ad67ac645be7a42d3d5f53b63ef4de0dfbb5383ece1e6f049"},
    {"e479ced0f4f791681d51eb016a908ae279f59631", "9e0eda2ffdc0b1a5b75f4fb9b343be4cc5ae31df1c0a023f0e9d769d791f5dd885285efd3a6c4a6744bda0f01d5d86bb2058cc41935c4307e363444f6b5e95d2"},
    {"cc0e13e9bb314ed15222ebf3ba7c6160596708ab", "f9da9f302f9e13a1dea8d4a2ea877a6102b069487c4f0d2432621cd623f17ad2e8eb590cc1775bc5ca407197c7df1b307f3a29e7bbda746f80e707cae2c3c105"},
    {"d63b9c31613c2e3831c8e93d70a758d3b6fed185", "cca1b37e1f11ad8e0503f0b80488eec79427ec4a9618d445a85d98b9a9bb004be218e0566c61bde6313f549568f71150dcc9977a21340ad1a25dad4e1567be6c90278ffd0c2c853d"}, // l = 1
    {"e672f0c362071673502859ab396f1e75a61150f9", "aa6f42f4c9584afe16f625e629a824b6399d28ef942b5669f7db0485e2a6ad0affbdc1b959fa4c876655bd0a425a0693418a2b7d1e1253ae15aa71ae2824d0e4b1f5043a5685ac728669f150c85d2b72"}, // l = 2
    {"f5740a5b4a409b4524c958867033eaa0f824e8c9", "a1d9b8d0e914699c9b4ef4480caafd7420478a3844d8aacb8107a36d6b8264afc65f1c5862e020a1ba52eaa964de587e068711d4e31603c1297eec7cc931f125080dd845fe3fbb98527c0d0204a155583f8c601f60828586b7607744f6fb15fa5835db7e5385a181"}, // l = 5
    {"d45770baa5e2cc3b7486e4f1e1481bfd82b5c52b", "c19f42170bf4d3ef0e63f3ca761c275235ce265a35b0af000869faf0a05c127ec9bf6cb810649b3f0fbb02bb2721c9625469f0ee350d9b56b25d8f1b452f720a6f5edad228d5f1438fc1b9f967bc39a66c09eb487185a884ac5f50bc41fcdfdfaa564eb682fb5208d55b85866d0c8047b67dd924e38fadcd7a78d24aca4f5e49"}, // l = 8
};
static const unsigned dsa_l[10] = {0, 0, 0, 0, 0, 0, 1, 2, 5, 8};
static inline void dsa_script(sim::PrngCfg &st, unsigned i, sim::Rng &g)
{
    st.kind = sim::PrngCfg::SCRIPT; st.script = bi_to_be(bi_hex(dsa_seeds[i][0]), 20); Bytes b(100), c(320); g.fill(b.data(), b.size()); g.fill(c.data(), c.size());
    st.script = ref::cat(st.script, b); st.script = ref::cat(st.script, bi_to_be(bi_hex(dsa_seeds[i][1]), 64 + 8 * dsa_l[i])); st.script = ref::cat(st.script, c);
}
// A secret of the given size drawn from fresh random bytes: 48 equal bits in a row do not happen by chance (< 2^-37 each).
static inline void weak_secret(const bi &k, size_t bits, const char *what)
{
    if (bits < 60) return;
    for (size_t i = 0, z = 0, o = 0; i < bits; i++) {
        if (bit_test(k, (unsigned)i)) o++, z = 0; else z++, o = 0;
        if (z == 48 || o == 48) sim::violation("weak-secret", "%s does not follow the random source: %s (%zu bits)", what, bi_str(k).c_str(), bits);
    }
}
// ---- what a generated key has to satisfy ----------------------------------------------------------------------
static inline void judge_ecdsa_key(cry_ecdsa_ctx *c, const Curve &cv, unsigned f, bool fresh = false)
{
    bi d = mpi_val(&c->d, "d"); Pt q = pt_val(&c->q, "q");
    if (d < 1 || d >= cv.n) sim::violation(f ? "bad-key-after-fault" : "bad-key", "ECDSA private key %s is not in [1, n-1]", bi_str(d).c_str());
    if (!(q == cv.mul(cv.g, d))) sim::violation(f ? "bad-key-after-fault" : "bad-key", "ECDSA public key is not d*G");
    if (fresh) weak_secret(d, bi_bits(cv.n), "ECDSA private key");
}
static inline void judge_dsa_key(cry_dsa_ctx *c, unsigned l, unsigned f)
{
    const char *cls = f ? "bad-key-after-fault" : "bad-key"; size_t pb = 512 + 64 * l;
    bi p = mpi_val(&c->p, "p"), q = mpi_val(&c->q, "q"), gg = mpi_val(&c->g, "g"), x = mpi_val(&c->pvt, "pvt"), y = mpi_val(&c->pub, "pub");
    if (bi_bits(q) != 160 || bi_bits(p) > pb || bi_bits(p) < pb - 1 || (p - 1) % q != 0 || !bi_maybe_prime(p) || !bi_maybe_prime(q)) sim::violation(cls, "DSA (l=%u) p=%s q=%s", l, bi_str(p).c_str(), bi_str(q).c_str());
    if (gg <= 1 || gg >= p || bi_powm(gg, q, p) != 1) sim::violation(cls, "DSA generator %s has not order q", bi_str(gg).c_str());
    if (x < 1 || x >= q || bi_powm(gg, x, p) != y) sim::violation(cls, "DSA key pair: x=%s", bi_str(x).c_str());
    weak_secret(x, 160, "DSA private key"); weak_secret(gg, bi_bits(p), "DSA generator");
}
static inline void judge_rsa_key(cry_rsa_ctx *c, size_t bits, long e, unsigned f, bool fresh = true)
{
    const char *cls = f ? "bad-key-after-fault" : "bad-key";
    bi n = mpi_val(&c->n, "n"), p = mpi_val(&c->p, "p"), q = mpi_val(&c->q, "q"), d = mpi_val(&c->d, "d"), ee = mpi_val(&c->e, "e");
    if (n != p * q || p == q || bi_bits(n) != bits) sim::violation(cls, "RSA n=%s p=%s q=%s", bi_str(n).c_str(), bi_str(p).c_str(), bi_str(q).c_str());
    if (fresh && (!bi_maybe_prime(p) || !bi_maybe_prime(q))) sim::violation(cls, "RSA factor is composite: p=%s q=%s", bi_str(p).c_str(), bi_str(q).c_str());
    if (e && ee != e) sim::violation(cls, "RSA public exponent is %s", bi_str(ee).c_str());
    if (ee * d % ((p - 1) * (q - 1)) != 1 && (ee * d % (p - 1) != 1 % (p - 1) || ee * d % (q - 1) != 1 % (q - 1))) sim::violation(cls, "RSA e*d != 1: e=%s d=%s", bi_str(ee).c_str(), bi_str(d).c_str());
}

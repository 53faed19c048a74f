// Independent elliptic-curve arithmetic (Jacobian, boost cpp_int), the standard curve constants and
// generators of small custom curves.
#pragma once
#include "model.h"
struct StdCurve { const char *name, *p, *a, *b, *gx, *gy, *n; };
static const StdCurve std_curves[11] = { // in the order of CRY_ECP_GRP_*
{"prime192v1", "fffffffffffffffffffffffffffffffeffffffffffffffff", "fffffffffffffffffffffffffffffffefffffffffffffffc", "64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1", "188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012", "7192b95ffc8da78631011ed6b24cdd573f977a11e794811", "ffffffffffffffffffffffff99def836146bc9b1b4d22831"},
{"secp224r1", "ffffffffffffffffffffffffffffffff000000000000000000000001", "fffffffffffffffffffffffffffffffefffffffffffffffffffffffe", "b4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4", "b70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21", "bd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34", "ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d"},
{"prime256v1", "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "ffffffff00000001000000000000000000000000fffffffffffffffffffffffc", "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b", "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296", "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5", "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"},
{"secp384r1", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000fffffffc", "b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef", "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7", "3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f", "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"},
{"secp521r1", "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffc", "51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00", "c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66", "11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650", "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409"},
{"secp192k1", "fffffffffffffffffffffffffffffffffffffffeffffee37", "0", "3", "db4ff10ec057e9ae26b07d0280b7f4341da5d1b1eae06c7d", "9b2f2f6d9c5628a7844163d015be86344082aa88d95e2f9d", "fffffffffffffffffffffffe26f2fc170f69466a74defd8d"},
{"secp224k1", "fffffffffffffffffffffffffffffffffffffffffffffffeffffe56d", "0", "5", "a1455b334df099df30fc28a169a467e9e47075a90f7e650eb6b7a45c", "7e089fed7fba344282cafbd6f7e319f7c0b0bd59e2ca4bdb556d61a5", "10000000000000000000000000001dce8d2ec6184caf0a971769fb1f7"},
{"secp256k1", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "0", "7", "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"},
{"brainpoolP256r1", "a9fb57dba1eea9bc3e660a909d838d726e3bf623d52620282013481d1f6e5377", "7d5a0975fc2c3057eef67530417affe7fb8055c126dc5c6ce94a4b44f330b5d9", "26dc5c6ce94a4b44f330b5d9bbd77cbf958416295cf7e1ce6bccdc18ff8c07b6", "8bd2aeb9cb7e57cb2c4b482ffc81b7afb9de27e1e3bd23c23a4453bd9ace3262", "547ef835c3dac4fd97f8461a14611dc9c27745132ded8e545c1d54c72f046997", "a9fb57dba1eea9bc3e660a909d838d718c397aa3b561a6f7901e0e82974856a7"},
{"brainpoolP384r1", "8cb91e82a3386d280f5d6f7e50e641df152f7109ed5456b412b1da197fb71123acd3a729901d1a71874700133107ec53", "7bc382c63d8c150c3c72080ace05afa0c2bea28e4fb22787139165efba91f90f8aa5814a503ad4eb04a8c7dd22ce2826", "4a8c7dd22ce28268b39b55416f0447c2fb77de107dcd2a62e880ea53eeb62d57cb4390295dbc9943ab78696fa504c11", "1d1c64f068cf45ffa2a63a81b7c13f6b8847a3e77ef14fe3db7fcafe0cbd10e8e826e03436d646aaef87b2e247d4af1e", "8abe1d7520f9c2a45cb1eb8e95cfd55262b70b29feec5864e19c054ff99129280e4646217791811142820341263c5315", "8cb91e82a3386d280f5d6f7e50e641df152f7109ed5456b31f166e6cac0425a7cf3ab6af6b7fc3103b883202e9046565"},
{"brainpoolP512r1", "aadd9db8dbe9c48b3fd4e6ae33c9fc07cb308db3b3c9d20ed6639cca703308717d4d9b009bc66842aecda12ae6a380e62881ff2f2d82c68528aa6056583a48f3", "7830a3318b603b89e2327145ac234cc594cbdd8d3df91610a83441caea9863bc2ded5d5aa8253aa10a2ef1c98b9ac8b57f1117a72bf2c7b9e7c1ac4d77fc94ca", "3df91610a83441caea9863bc2ded5d5aa8253aa10a2ef1c98b9ac8b57f1117a72bf2c7b9e7c1ac4d77fc94cadc083e67984050b75ebae5dd2809bd638016f723", "81aee4bdd82ed9645a21322e9c4c6a9385ed9f70b5d916c1b43b62eef4d0098eff3b1f78e2d0d48d50d1687b93b97d5f7c6d5047406a5e688b352209bcb9f822", "7dde385d566332ecc0eabfa9cf7822fdf209f70024a57b1aa000c55b881f8111b2dcde494a5f485e5bca4bd88a2763aed1ca2b2fa8f0540678cd1e0f3ad80892", "aadd9db8dbe9c48b3fd4e6ae33c9fc07cb308db3b3c9d20ed6639cca70330870553e5c414ca92619418661197fac10471db1d381085ddaddb58796829ca90069"},
};
// custom curves of prime order, 14 to 72 bits
static const StdCurve mid_curves[14] = {
    {"c14", "29a7", "1b2b", "1eab", "3c8", "2431", "29bf"},
    {"c17", "142e1", "5475", "1213c", "af21", "4dd1", "14141"},
    {"c24", "f646e1", "98289f", "546b3f", "7f2614", "947404", "f6398f"},
    {"c31", "6b84107f", "14aa0537", "c0b01d3", "42173fe1", "2f4ccfa", "6b851c63"},
    {"c32", "b488f877", "8fcd7f40", "57b56b3f", "72235c2", "1038f0b6", "b489dbc5"},
    {"c33", "1816bee07", "3d9a8079", "f41c0ea1", "12b80aed", "ab6286ce", "1816bd501"},
    {"c40", "9fc8b007ef", "1447a164e4", "812941c42a", "6b59f9bb79", "8f1fab5885", "9fc8a966f7"},
    {"c48", "c241f6da7a63", "3234d8aa7be3", "2050286e3a0a", "7913d445a53e", "90bf2ed6d461", "c241f816d4bf"},
    {"c56", "cf7eda2df83c67", "16ad95f7a93fdb", "c7610310669007", "9e7bf739445629", "2afa362eb15ca3", "cf7eda1c9482cf"},
    {"c63", "570f9cebf53660b9", "2808f6762ba641a", "2f6fdc3df82ab863", "1c2a87b20dff6f5d", "32afe78be3fa79aa", "570f9ceb3dc48407"},
    {"c64", "e9dace3838ad8f8f", "a3026e4a7174cb1c", "1e0dc6a1da9f6b21", "66c13550f845a62b", "d9c578dd0a39b5c9", "e9dace38cf0dd835"},
    {"c65", "1488383be24a64615", "1cf3ec8b441a6adf", "7a99bfd065501a26", "122d0a1cc8287c1b1", "9db1074167f8c108", "1488383beb7f365e7"},
    {"c66", "2343abc7ba45fca87", "cc63bbb911eeded9", "14d017cde800f7e55", "2c57fad0d64b960d", "3fb941d2b225999e", "2343abc7a5cf864f1"},
    {"c72", "cd73c0f3c1b52fed01", "421778baf41df279f3", "a35f127010bac68481", "397907611462fff3b3", "9a2f594c37f4d67731", "cd73c0f3b3b7fc69db"},
};
struct Pt { bool inf = true; bi x, y; bool operator==(const Pt &o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); } };
static inline bi bi_hex(const char *s) { return bi(std::string("0x") + s); }
struct Curve {
    bi p, a, b, n; Pt g; // n: order of g
    Pt neg(const Pt &q) const { Pt r = q; if (!r.inf) r.y = bi_mod(-r.y, p); return r; }
    bool on(const Pt &q) const { return q.inf || bi_mod(q.y * q.y - q.x * q.x * q.x - a * q.x - b, p) == 0; }
    Pt add(const Pt &u, const Pt &v) const {
        if (u.inf) return v;
        if (v.inf) return u;
        bi l;
        if (u.x == v.x) {
            if (bi_mod(u.y + v.y, p) == 0) return Pt();
            l = bi_mod((3 * u.x * u.x + a) * bi_inv(bi_mod(2 * u.y, p), p), p);
        } else l = bi_mod((v.y - u.y) * bi_inv(bi_mod(v.x - u.x, p), p), p);
        Pt r; r.inf = false; r.x = bi_mod(l * l - u.x - v.x, p); r.y = bi_mod(l * (u.x - r.x) - u.y, p); return r;
    }
    Pt dbl(const Pt &u) const { return add(u, u); }
    Pt mul(const Pt &q, const bi &k) const { // Jacobian double and add
        bi X = 1, Y = 1, Z = 0; if (q.inf || k == 0) return Pt();
        for (long i = (long)bi_bits(k) - 1; i >= 0; i--) {
            if (Z != 0) { // doubling
                bi yy = Y * Y % p, s = 4 * X * yy % p, zz = Z * Z % p, m = bi_mod(3 * X * X + a * (zz * zz % p), p);
                bi x3 = bi_mod(m * m - 2 * s, p), y3 = bi_mod(m * (s - x3) - 8 * (yy * yy % p), p), z3 = 2 * Y * Z % p; X = x3; Y = y3; Z = z3;
            }
            if (!bit_test(k, (unsigned)i)) continue;
            if (Z == 0) { X = q.x; Y = q.y; Z = 1; continue; }
            bi zz = Z * Z % p, u2 = q.x * zz % p, s2 = q.y * (zz * Z % p) % p, h = bi_mod(u2 - X, p), r = bi_mod(s2 - Y, p);
            if (h == 0) {
                if (r != 0) { X = 1; Y = 1; Z = 0; continue; }
                bi yy = Y * Y % p, s = 4 * X * yy % p, m = bi_mod(3 * X * X + a * (zz * zz % p), p);
                bi x3 = bi_mod(m * m - 2 * s, p), y3 = bi_mod(m * (s - x3) - 8 * (yy * yy % p), p), z3 = 2 * Y * Z % p; X = x3; Y = y3; Z = z3; continue;
            }
            bi hh = h * h % p, hhh = hh * h % p, v = X * hh % p;
            bi x3 = bi_mod(r * r - hhh - 2 * v, p), y3 = bi_mod(r * (v - x3) - Y * hhh, p), z3 = Z * h % p; X = x3; Y = y3; Z = z3;
        }
        if (Z == 0) return Pt();
        bi zi = bi_inv(Z, p), zi2 = zi * zi % p; Pt o; o.inf = false; o.x = X * zi2 % p; o.y = Y * (zi2 * zi % p) % p; return o;
    }
};
static inline Curve std_curve(int i) { const StdCurve &s = std_curves[i]; Curve c; c.p = bi_hex(s.p); c.a = bi_hex(s.a); c.b = bi_hex(s.b); c.g.inf = false; c.g.x = bi_hex(s.gx); c.g.y = bi_hex(s.gy); c.n = bi_hex(s.n); return c; }
static inline Curve ordered_curve(int i) { const StdCurve &s = mid_curves[i]; Curve c; c.p = bi_hex(s.p); c.a = bi_hex(s.a); c.b = bi_hex(s.b); c.g.inf = false; c.g.x = bi_hex(s.gx); c.g.y = bi_hex(s.gy); c.n = bi_hex(s.n); return c; }
// all points of a curve over a small prime field
static inline std::vector<Pt> all_points(const Curve &c)
{
    std::vector<Pt> v; v.push_back(Pt()); long p = (long)c.p, a = (long)c.a, b = (long)c.b;
    std::vector<std::vector<long>> sq(p); for (long y = 0; y < p; y++) sq[y * y % p].push_back(y);
    for (long x = 0; x < p; x++) { long r = ((x * x % p * x) + a * x + b) % p; for (long y : sq[r]) { Pt q; q.inf = false; q.x = x; q.y = y; v.push_back(q); } }
    return v;
}
static inline bool small_prime(unsigned v) { if (v < 2) return false; for (unsigned d = 2; d * d <= v; d++) if (v % d == 0) return false; return true; }
static const unsigned tiny_primes[] = {5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211, 223, 227, 229, 233, 239, 241, 251, 257, 263, 269, 271, 277, 281, 283, 293, 307, 311, 331, 509, 521, 1021, 1031};
// a small curve; with prime_order, g has prime order n >= minn. pts gets all its points
static inline Curve tiny_curve(std::vector<Pt> &pts, bool prime_order, unsigned minn = 5)
{
    unsigned pi = sim::choose(sizeof tiny_primes / sizeof *tiny_primes); sim::Rng r(sim::subseed());
    for (;; pi++) {
        unsigned p = tiny_primes[pi % (sizeof tiny_primes / sizeof *tiny_primes)]; Curve c; c.p = p;
        for (int tries = 0; tries < 40; tries++) {
            unsigned a = r.below(p), b = r.below(p);
            if ((4ull * a * a % p * a + 27ull * b * b) % p == 0) continue;
            c.a = a; c.b = b; pts = all_points(c);
            if (pts.size() < 3) continue;
            unsigned N = (unsigned)pts.size(), q = 0;
            if (prime_order) { for (unsigned d = minn; d <= N; d++) if (N % d == 0 && small_prime(d)) q = d; if (!q) continue; }
            for (int t = 0; t < 30; t++) {
                Pt g = pts[1 + r.below(N - 1)];
                if (prime_order) { g = c.mul(g, N / q); if (g.inf) continue; c.g = g; c.n = q; return c; }
                c.g = g; unsigned o = 1; Pt s = g; while (!s.inf) { s = c.add(s, g); o++; } c.n = o; return c;
            }
        }
    }
}
static inline bi gen_prime(size_t bits, sim::Rng &r) { for (;;) { bi v = gen_bits(bits, r) | (bi(1) << (bits - 1)) | 1; if (bi_is_prime(v)) return v; } }
// a medium curve through a random point (order unknown)
static inline Curve mid_curve(size_t bits)
{
    sim::Rng r(sim::subseed()); Curve c; c.p = gen_prime(bits, r);
    for (;;) {
        c.a = bi_mod(gen_bits(bits, r), c.p); c.g.inf = false; c.g.x = bi_mod(gen_bits(bits, r), c.p); c.g.y = bi_mod(gen_bits(bits, r), c.p);
        c.b = bi_mod(c.g.y * c.g.y - c.g.x * c.g.x * c.g.x - c.a * c.g.x, c.p);
        if (bi_mod(4 * c.a * c.a * c.a + 27 * c.b * c.b, c.p) != 0 && c.g.y != 0) { c.n = 0; return c; }
    }
}
// ---- library objects -----------------------------------------------------------------------------------
static inline void pt_make(cry_ecp *q, const Pt &v)
{
    mpi_make(&q->x, v.inf ? bi(1) : v.x, sim::choose(3)); mpi_make(&q->y, v.inf ? bi(1) : v.y, sim::choose(3)); mpi_make(&q->z, v.inf ? 0 : 1, sim::choose(2));
}
static inline void pt_drop(cry_ecp *q) { mpi_drop(&q->x); mpi_drop(&q->y); mpi_drop(&q->z); }
static inline Pt pt_val(const cry_ecp *q, const char *what, bool strict = true)
{
    Pt r; bi x = mpi_val(&q->x, what, strict), y = mpi_val(&q->y, what, strict), z = mpi_val(&q->z, what, strict);
    r.inf = z == 0; if (!r.inf) { r.x = x; r.y = y; } return r;
}
static inline std::string pt_str(const Pt &p) { return p.inf ? "infinity" : "(" + bi_str(p.x) + ", " + bi_str(p.y) + ")"; }
static inline void grp_make(cry_ecp_grp *g, const Curve &c, bool neg_a)
{
    mpi_make(&g->p, c.p, 0); mpi_make(&g->a, neg_a && c.a != 0 ? bi(c.a - c.p) : c.a, 0); mpi_make(&g->b, c.b, 0); mpi_make(&g->n, c.n, 0); pt_make(&g->g, c.g);
}
static inline void grp_drop(cry_ecp_grp *g) { mpi_drop(&g->p); mpi_drop(&g->a); mpi_drop(&g->b); mpi_drop(&g->n); pt_drop(&g->g); }
static inline void grp_expect(const cry_ecp_grp *g, const Curve &c, const char *cls)
{
    if (mpi_val(&g->p, "p", false) != c.p) sim::violation(cls, "group modulus is %s", bi_str(mpi_val(&g->p, "p", false)).c_str());
    if (bi_mod(mpi_val(&g->a, "a", false), c.p) != c.a) sim::violation(cls, "group coefficient a is %s", bi_str(mpi_val(&g->a, "a", false)).c_str());
    if (bi_mod(mpi_val(&g->b, "b", false), c.p) != c.b) sim::violation(cls, "group coefficient b is %s", bi_str(mpi_val(&g->b, "b", false)).c_str());
    if (!(pt_val(&g->g, "g", false) == c.g)) sim::violation(cls, "group generator is %s", pt_str(pt_val(&g->g, "g", false)).c_str());
    if (mpi_val(&g->n, "n", false) != c.n) sim::violation(cls, "group order is %s", bi_str(mpi_val(&g->n, "n", false)).c_str());
}

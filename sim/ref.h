// Reference implementations used as oracles: written from the standards, simple and slow, one-shot.
// They share no code and no tables with the library.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace ref {
typedef std::vector<uint8_t> B;
inline B cat(const B &a, const B &b) { B r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
inline std::string hex(const uint8_t *p, size_t n) { std::string s; char b[3]; for (size_t i = 0; i < n; i++) { snprintf(b, 3, "%02x", p[i]); s += b; } return s; }
inline std::string hex(const B &v) { return hex(v.data(), v.size()); }

// ---- AES (FIPS 197), computed S-box ---------------------------------------------------------------------
struct AesTab {
    uint8_t s[256], inv[256];
    static uint8_t mul(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = (uint8_t)((a << 1) ^ ((a & 0x80) ? 0x1b : 0)); b >>= 1; } return r; }
    AesTab() {
        for (int x = 0; x < 256; x++) {
            uint8_t v = 0;
            if (x) { v = 1; for (int i = 0; i < 254; i++) v = mul(v, (uint8_t)x); } // x^254 = 1/x
            uint8_t y = v; for (int i = 1; i <= 4; i++) y ^= (uint8_t)((v << i) | (v >> (8 - i)));
            s[x] = y ^ 0x63; inv[s[x]] = (uint8_t)x;
        }
    }
};
inline const AesTab &aes_tab() { static AesTab t; return t; }
struct Aes {
    int nr; uint8_t w[240];
    explicit Aes(const B &key) {
        auto &T = aes_tab(); int nk = (int)key.size() / 4; nr = nk + 6;
        memcpy(w, key.data(), key.size()); uint8_t rc = 1;
        for (int i = nk; i < 4 * (nr + 1); i++) {
            uint8_t t[4]; memcpy(t, w + 4 * (i - 1), 4);
            if (i % nk == 0) { uint8_t a = t[0]; t[0] = T.s[t[1]] ^ rc; t[1] = T.s[t[2]]; t[2] = T.s[t[3]]; t[3] = T.s[a]; rc = AesTab::mul(rc, 2); }
            else if (nk > 6 && i % nk == 4) for (auto &x : t) x = T.s[x];
            for (int k = 0; k < 4; k++) w[4 * i + k] = w[4 * (i - nk) + k] ^ t[k];
        }
    }
    void ark(uint8_t *s, int r) const { for (int i = 0; i < 16; i++) s[i] ^= w[16 * r + i]; }
    void enc(uint8_t *out, const uint8_t *in) const {
        auto &T = aes_tab(); uint8_t s[16], t[16]; memcpy(s, in, 16); ark(s, 0);
        for (int r = 1; r <= nr; r++) {
            for (int c = 0; c < 4; c++) for (int q = 0; q < 4; q++) t[4 * c + q] = T.s[s[4 * ((c + q) % 4) + q]];
            if (r < nr) for (int c = 0; c < 4; c++) { uint8_t *a = t + 4 * c, b[4]; for (int q = 0; q < 4; q++) { uint8_t x2 = (uint8_t)((a[q] << 1) ^ ((a[q] & 0x80) ? 0x1b : 0)), y = a[(q + 1) % 4], y2 = (uint8_t)((y << 1) ^ ((y & 0x80) ? 0x1b : 0)); b[q] = (uint8_t)(x2 ^ y2 ^ y ^ a[(q + 2) % 4] ^ a[(q + 3) % 4]); } memcpy(a, b, 4); }
            memcpy(s, t, 16); ark(s, r);
        }
        memcpy(out, s, 16);
    }
    void dec(uint8_t *out, const uint8_t *in) const {
        auto &T = aes_tab(); uint8_t s[16], t[16]; memcpy(s, in, 16); ark(s, nr);
        for (int r = nr - 1; r >= 0; r--) {
            for (int c = 0; c < 4; c++) for (int q = 0; q < 4; q++) t[4 * ((c + q) % 4) + q] = T.inv[s[4 * c + q]];
            memcpy(s, t, 16); ark(s, r);
            if (r > 0) for (int c = 0; c < 4; c++) { uint8_t *a = s + 4 * c, b[4]; for (int q = 0; q < 4; q++) b[q] = (uint8_t)(AesTab::mul(a[q], 14) ^ AesTab::mul(a[(q + 1) % 4], 11) ^ AesTab::mul(a[(q + 2) % 4], 13) ^ AesTab::mul(a[(q + 3) % 4], 9)); memcpy(a, b, 4); }
        }
        memcpy(out, s, 16);
    }
};

// ---- DES (FIPS 46-3) ------------------------------------------------------------------------------------
namespace des {
static const uint8_t IP[64] = {58,50,42,34,26,18,10,2,60,52,44,36,28,20,12,4,62,54,46,38,30,22,14,6,64,56,48,40,32,24,16,8,57,49,41,33,25,17,9,1,59,51,43,35,27,19,11,3,61,53,45,37,29,21,13,5,63,55,47,39,31,23,15,7};
static const uint8_t PC1[56] = {57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4};
static const uint8_t PC2[48] = {14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32};
static const uint8_t P[32] = {16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25};
static const uint8_t S[8][4][16] = {
{{14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7},{0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8},{4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0},{15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13}},
{{15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10},{3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5},{0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15},{13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9}},
{{10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8},{13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1},{13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7},{1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12}},
{{7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15},{13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9},{10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4},{3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14}},
{{2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9},{14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6},{4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14},{11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3}},
{{12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11},{10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8},{9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6},{4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13}},
{{4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1},{13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6},{1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2},{6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12}},
{{13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7},{1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2},{7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8},{2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11}}};
inline uint64_t perm(uint64_t v, int inbits, const uint8_t *t, int n) { uint64_t r = 0; for (int i = 0; i < n; i++) r = (r << 1) | ((v >> (inbits - t[i])) & 1); return r; }
inline uint64_t ld(const uint8_t *p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = (v << 8) | p[i]; return v; }
inline void block(uint8_t *out, const uint8_t *in, const uint8_t *key, bool enc) {
    uint64_t k = perm(ld(key), 64, PC1, 56), sub[16]; uint32_t c = (uint32_t)(k >> 28), d = (uint32_t)(k & 0xfffffff);
    for (int r = 0; r < 16; r++) { int s = (r == 0 || r == 1 || r == 8 || r == 15) ? 1 : 2; c = ((c << s) | (c >> (28 - s))) & 0xfffffff; d = ((d << s) | (d >> (28 - s))) & 0xfffffff; sub[r] = perm(((uint64_t)c << 28) | d, 56, PC2, 48); }
    uint64_t v = perm(ld(in), 64, IP, 64); uint32_t L = (uint32_t)(v >> 32), R = (uint32_t)v;
    for (int r = 0; r < 16; r++) {
        uint64_t kk = sub[enc ? r : 15 - r]; uint32_t f = 0;
        for (int i = 0; i < 8; i++) { // E: bits 4i .. 4i+5 (1-based, 0 = 32)
            unsigned x = 0; for (int j = 0; j < 6; j++) { int b = (4 * i + j + 31) % 32; x = (x << 1) | ((R >> (31 - b)) & 1); }
            x ^= (unsigned)((kk >> (42 - 6 * i)) & 63); f = (f << 4) | S[i][((x >> 4) & 2) | (x & 1)][(x >> 1) & 15];
        }
        uint32_t t = L ^ (uint32_t)perm(f, 32, P, 32); L = R; R = t;
    }
    v = ((uint64_t)R << 32) | L; uint64_t o = 0;
    for (int i = 0; i < 64; i++) o |= ((v >> (63 - i)) & 1) << (64 - IP[i]);
    for (int i = 0; i < 8; i++) out[i] = (uint8_t)(o >> (56 - 8 * i));
}
}
// ---- block cipher abstraction ------------------------------------------------------------------------------
struct Bc {
    int kind; B key; Aes *aes = nullptr; // 0 AES, 1 DES/3DES
    Bc(int k, const B &ky) : kind(k), key(ky) { if (k == 0) aes = new Aes(ky); else if (key.size() > 24) key.resize(24); }
    Bc(const Bc &) = delete;
    ~Bc() { delete aes; }
    size_t bs() const { return kind ? 8 : 16; }
    void enc(uint8_t *o, const uint8_t *i) const {
        if (!kind) { aes->enc(o, i); return; }
        uint8_t t[8]; des::block(t, i, key.data(), true);
        if (key.size() == 24) { des::block(t, t, key.data() + 8, false); des::block(t, t, key.data() + 16, true); }
        memcpy(o, t, 8);
    }
    void dec(uint8_t *o, const uint8_t *i) const {
        if (!kind) { aes->dec(o, i); return; }
        uint8_t t[8];
        if (key.size() == 24) { des::block(t, i, key.data() + 16, false); des::block(t, t, key.data() + 8, true); des::block(t, t, key.data(), false); }
        else des::block(t, i, key.data(), false);
        memcpy(o, t, 8);
    }
};
inline B cbc_enc(const Bc &c, const B &iv, const B &p) { B r(p.size()); B v = iv; size_t n = c.bs(); for (size_t i = 0; i < p.size(); i += n) { for (size_t k = 0; k < n; k++) v[k] ^= p[i + k]; c.enc(v.data(), v.data()); memcpy(&r[i], v.data(), n); } return r; }
inline B cfb_enc(const Bc &c, const B &iv, const B &p) { B r(p.size()); B v = iv; size_t n = c.bs(); for (size_t i = 0; i < p.size(); i += n) { B o(n); c.enc(o.data(), v.data()); for (size_t k = 0; k < n && i + k < p.size(); k++) { r[i + k] = p[i + k] ^ o[k]; v[k] = r[i + k]; } } return r; }
inline B cfb8_enc(const Bc &c, const B &iv, const B &p) { B r(p.size()); B v = iv; size_t n = c.bs(); for (size_t i = 0; i < p.size(); i++) { B o(n); c.enc(o.data(), v.data()); r[i] = p[i] ^ o[0]; v.erase(v.begin()); v.push_back(r[i]); } return r; }
inline void inc_be(uint8_t *p, size_t n) { while (n-- > 0) if (++p[n]) break; }
inline B ctr_crypt(const Bc &c, const B &iv, const B &p) { B r(p.size()); B v = iv; size_t n = c.bs(); for (size_t i = 0; i < p.size(); i += n) { B o(n); c.enc(o.data(), v.data()); inc_be(v.data(), n); for (size_t k = 0; k < n && i + k < p.size(); k++) r[i + k] = p[i + k] ^ o[k]; } return r; }

// ---- GCM (SP 800-38D) ------------------------------------------------------------------------------------
struct Gcm {
    typedef unsigned __int128 u128;
    static u128 ld(const uint8_t *p) { u128 v = 0; for (int i = 0; i < 16; i++) v = (v << 8) | p[i]; return v; }
    static void st(uint8_t *p, u128 v) { for (int i = 15; i >= 0; i--) { p[i] = (uint8_t)v; v >>= 8; } }
    static u128 mul(u128 x, u128 y) { u128 z = 0, v = y; const u128 R = (u128)0xe1 << 120; for (int i = 127; i >= 0; i--) { if ((x >> i) & 1) z ^= v; v = (v & 1) ? (v >> 1) ^ R : v >> 1; } return z; }
    static u128 ghash(u128 h, u128 y, const B &d) { for (size_t i = 0; i < d.size(); i += 16) { uint8_t b[16] = {0}; memcpy(b, &d[i], std::min<size_t>(16, d.size() - i)); y = mul(y ^ ld(b), h); } return y; }
    static u128 lens(u128 h, u128 y, uint64_t a, uint64_t c) { return mul(y ^ (((u128)(a * 8) << 64) | (c * 8)), h); }
    B ct, tag;
    // dir: true = p is plaintext
    Gcm(const Bc &c, const B &iv, const B &aad, const B &in, bool encrypt) {
        uint8_t z[16] = {0}, j0[16]; c.enc(z, z); u128 h = ld(z);
        if (iv.size() == 12) { memcpy(j0, iv.data(), 12); j0[12] = j0[13] = j0[14] = 0; j0[15] = 1; }
        else st(j0, lens(h, ghash(h, 0, iv), 0, iv.size()));
        uint8_t ctr[16]; memcpy(ctr, j0, 16); ct.resize(in.size());
        for (size_t i = 0; i < in.size(); i += 16) { inc_be(ctr + 12, 4); uint8_t o[16]; c.enc(o, ctr); for (size_t k = 0; k < 16 && i + k < in.size(); k++) ct[i + k] = in[i + k] ^ o[k]; }
        u128 y = ghash(h, ghash(h, 0, aad), encrypt ? ct : in); y = lens(h, y, aad.size(), in.size());
        uint8_t e[16]; c.enc(e, j0); tag.resize(16); st(tag.data(), y ^ ld(e));
    }
};

// ---- CMAC (SP 800-38B, 128-bit block) ------------------------------------------------------------------------
inline B cmac(const Bc &c, const B &m) {
    auto dbl = [](B v) { B r(16); int cy = v[0] >> 7; for (int i = 0; i < 16; i++) r[i] = (uint8_t)((v[i] << 1) | (i < 15 ? v[i + 1] >> 7 : 0)); if (cy) r[15] ^= 0x87; return r; };
    B l(16); c.enc(l.data(), l.data()); B k1 = dbl(l), k2 = dbl(k1), x(16);
    size_t nb = m.empty() ? 1 : (m.size() + 15) / 16;
    for (size_t i = 0; i < nb; i++) {
        B b(16); size_t n = std::min<size_t>(16, m.size() - std::min(m.size(), 16 * i)); if (n) memcpy(b.data(), &m[16 * i], n);
        if (i == nb - 1) { if (n == 16) for (int k = 0; k < 16; k++) b[k] ^= k1[k]; else { b[n] = 0x80; for (int k = 0; k < 16; k++) b[k] ^= k2[k]; } }
        for (int k = 0; k < 16; k++) x[k] ^= b[k]; c.enc(x.data(), x.data());
    }
    return x;
}

// ---- hashes ---------------------------------------------------------------------------------------------
inline uint32_t rl(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
inline uint32_t rr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
inline uint64_t rr64(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
// integer part of frac(root(p)) * 2^64 for the SHA constants: exact integer arithmetic by binary search
struct ShaConst {
    uint64_t K512[80], H512[8], H384[8]; uint32_t K256[64], H256[8];
    typedef unsigned __int128 u128;
    static void mul(const uint32_t *a, int na, const uint32_t *b, int nb, uint32_t *r) { memset(r, 0, 4 * (na + nb)); for (int i = 0; i < na; i++) { uint64_t c = 0; for (int j = 0; j < nb; j++) { c += (uint64_t)a[i] * b[j] + r[i + j]; r[i + j] = (uint32_t)c; c >>= 32; } r[i + nb] = (uint32_t)c; } }
    // largest x (80 bits: 16 integer + 64 fraction) with x^e <= p * 2^(64 e)
    static uint64_t frac(unsigned p, int e) {
        u128 x = 0;
        for (int bit = 79; bit >= 0; bit--) {
            u128 y = x | ((u128)1 << bit); uint32_t d[3] = {(uint32_t)y, (uint32_t)(y >> 32), (uint32_t)(y >> 64)}, s[6], c[9] = {0}; mul(d, 3, d, 3, s);
            if (e == 3) mul(s, 6, d, 3, c); else memcpy(c, s, 24);
            uint32_t t[9] = {0}; t[e * 2] = p; // p * 2^(64e)
            bool le = true; for (int i = 8; i >= 0; i--) if (c[i] != t[i]) { le = c[i] < t[i]; break; }
            if (le) x = y;
        }
        return (uint64_t)x;
    }
    ShaConst() {
        unsigned pr[80], n = 0; for (unsigned v = 2; n < 80; v++) { bool ok = true; for (unsigned i = 0; i < n && ok; i++) ok = v % pr[i]; if (ok) pr[n++] = v; }
        for (int i = 0; i < 80; i++) { K512[i] = frac(pr[i], 3); if (i < 64) K256[i] = (uint32_t)(K512[i] >> 32); }
        for (int i = 0; i < 8; i++) { H512[i] = frac(pr[i], 2); H256[i] = (uint32_t)(H512[i] >> 32); H384[i] = frac(pr[8 + i], 2); }
    }
};
inline const ShaConst &shac() { static ShaConst c; return c; }
// streaming Merkle-Damgard core; kinds: 0 md5, 1 sha1, 2 sha256, 3 sha384, 4 sha512
struct Hash {
    int kind; size_t bs; uint32_t s[8]; uint64_t q[8]; B buf; uint64_t total = 0;
    explicit Hash(int k) : kind(k), bs(k >= 3 ? 128 : 64) {
        static const uint32_t i0[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
        for (int i = 0; i < 8; i++) { s[i] = k < 2 ? (i < 5 ? i0[i] : 0) : shac().H256[i]; q[i] = k == 3 ? shac().H384[i] : shac().H512[i]; }
    }
    static size_t len(int k) { static const size_t l[5] = {16, 20, 32, 48, 64}; return l[k]; }
    void comp(const uint8_t *d) {
        if (kind == 0) {
            static const uint8_t sh[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
            static const uint32_t T[64] = {
                0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
                0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
                0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
                0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
            uint32_t w[16]; for (int i = 0; i < 16; i++) w[i] = d[4 * i] | d[4 * i + 1] << 8 | d[4 * i + 2] << 16 | (uint32_t)d[4 * i + 3] << 24;
            uint32_t a = s[0], b = s[1], c = s[2], e = s[3];
            for (int i = 0; i < 64; i++) {
                uint32_t f; int g;
                if (i < 16) { f = (b & c) | (~b & e); g = i; } else if (i < 32) { f = (e & b) | (~e & c); g = (5 * i + 1) % 16; }
                else if (i < 48) { f = b ^ c ^ e; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~e); g = (7 * i) % 16; }
                uint32_t t = e; e = c; c = b; b = b + rl(a + f + T[i] + w[g], sh[i / 16][i % 4]); a = t;
            }
            s[0] += a; s[1] += b; s[2] += c; s[3] += e;
        } else if (kind == 1) {
            uint32_t w[80]; for (int i = 0; i < 16; i++) w[i] = (uint32_t)d[4 * i] << 24 | d[4 * i + 1] << 16 | d[4 * i + 2] << 8 | d[4 * i + 3];
            for (int i = 16; i < 80; i++) w[i] = rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
            uint32_t a = s[0], b = s[1], c = s[2], e = s[3], f = s[4];
            for (int i = 0; i < 80; i++) {
                uint32_t x, k; if (i < 20) { x = (b & c) | (~b & e); k = 0x5a827999; } else if (i < 40) { x = b ^ c ^ e; k = 0x6ed9eba1; } else if (i < 60) { x = (b & c) | (b & e) | (c & e); k = 0x8f1bbcdc; } else { x = b ^ c ^ e; k = 0xca62c1d6; }
                uint32_t t = rl(a, 5) + x + f + k + w[i]; f = e; e = c; c = rl(b, 30); b = a; a = t;
            }
            s[0] += a; s[1] += b; s[2] += c; s[3] += e; s[4] += f;
        } else if (kind == 2) {
            auto &K = shac(); uint32_t w[64]; for (int i = 0; i < 16; i++) w[i] = (uint32_t)d[4 * i] << 24 | d[4 * i + 1] << 16 | d[4 * i + 2] << 8 | d[4 * i + 3];
            for (int i = 16; i < 64; i++) w[i] = (rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10)) + w[i - 7] + (rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 16];
            uint32_t v[8]; memcpy(v, s, 32);
            for (int i = 0; i < 64; i++) { uint32_t t1 = v[7] + (rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K.K256[i] + w[i], t2 = (rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2])); for (int k = 7; k > 0; k--) v[k] = v[k - 1]; v[4] += t1; v[0] = t1 + t2; }
            for (int i = 0; i < 8; i++) s[i] += v[i];
        } else {
            auto &K = shac(); uint64_t w[80]; for (int i = 0; i < 16; i++) w[i] = des::ld(d + 8 * i);
            for (int i = 16; i < 80; i++) w[i] = (rr64(w[i - 2], 19) ^ rr64(w[i - 2], 61) ^ (w[i - 2] >> 6)) + w[i - 7] + (rr64(w[i - 15], 1) ^ rr64(w[i - 15], 8) ^ (w[i - 15] >> 7)) + w[i - 16];
            uint64_t v[8]; memcpy(v, q, 64);
            for (int i = 0; i < 80; i++) { uint64_t t1 = v[7] + (rr64(v[4], 14) ^ rr64(v[4], 18) ^ rr64(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K.K512[i] + w[i], t2 = (rr64(v[0], 28) ^ rr64(v[0], 34) ^ rr64(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2])); for (int k = 7; k > 0; k--) v[k] = v[k - 1]; v[4] += t1; v[0] = t1 + t2; }
            for (int i = 0; i < 8; i++) q[i] += v[i];
        }
    }
    void add(const uint8_t *p, size_t n) { total += n; if (buf.empty()) { while (n >= bs) { comp(p); p += bs; n -= bs; } } while (n) { size_t k = std::min(n, bs - buf.size()); buf.insert(buf.end(), p, p + k); p += k; n -= k; if (buf.size() == bs) { comp(buf.data()); buf.clear(); while (n >= bs) { comp(p); p += bs; n -= bs; } } } }
    B fin() {
        uint64_t bits = total * 8; size_t lb = bs / 8; buf.push_back(0x80); while (buf.size() % bs != bs - lb) buf.push_back(0);
        for (size_t i = 0; i < lb; i++) { size_t sh = kind == 0 ? 8 * i : 8 * (lb - 1 - i); buf.push_back(sh >= 64 ? 0 : (uint8_t)(bits >> sh)); }
        if (bs == 128 && (total >> 61)) abort();
        for (size_t i = 0; i < buf.size(); i += bs) comp(&buf[i]);
        B r; if (kind == 0) for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) r.push_back((uint8_t)(s[i] >> (8 * k)));
        else if (kind < 3) for (int i = 0; i < 8; i++) for (int k = 3; k >= 0; k--) r.push_back((uint8_t)(s[i] >> (8 * k)));
        else for (int i = 0; i < 8; i++) for (int k = 7; k >= 0; k--) r.push_back((uint8_t)(q[i] >> (8 * k)));
        r.resize(len(kind)); return r;
    }
};
inline B hash(int kind, const B &m) { Hash h(kind); h.add(m.data(), m.size()); return h.fin(); }
inline B hmac(int kind, const B &key, const B &m) {
    size_t bs = kind >= 3 ? 128 : 64; B k = key.size() > bs ? hash(kind, key) : key; k.resize(bs);
    B i = k, o = k; for (auto &x : i) x ^= 0x36; for (auto &x : o) x ^= 0x5c;
    return hash(kind, cat(o, hash(kind, cat(i, m))));
}
// ---- CRCs, bit by bit (reflected) -----------------------------------------------------------------------------
inline uint32_t crc_raw(uint32_t poly, uint32_t init, const B &m) { uint32_t c = init; for (uint8_t b : m) { c ^= b; for (int i = 0; i < 8; i++) c = (c & 1) ? (c >> 1) ^ poly : c >> 1; } return c; }
inline uint16_t sw16(uint32_t v) { return (uint16_t)((v << 8) | ((v >> 8) & 0xff)); }
inline uint32_t crc(int k, const B &m) { // 0 ccitt (x.25), 1 ibm (modbus), 2 dnp, 3 crc-32
    switch (k) {
    case 0: return sw16(~crc_raw(0x8408, 0xffff, m) & 0xffff);
    case 1: return crc_raw(0xa001, 0xffff, m);
    case 2: return sw16(~crc_raw(0xa6bc, 0, m) & 0xffff);
    default: return ~crc_raw(0xedb88320u, 0xffffffffu, m);
    }
}
// ---- stream ciphers ------------------------------------------------------------------------------------------
inline B arc4(const B &key, const B &p) {
    uint8_t s[256]; for (int i = 0; i < 256; i++) s[i] = (uint8_t)i;
    for (int i = 0, j = 0; i < 256; i++) { j = (j + s[i] + key[i % key.size()]) & 255; std::swap(s[i], s[j]); }
    B r(p.size()); int i = 0, j = 0; for (size_t n = 0; n < p.size(); n++) { i = (i + 1) & 255; j = (j + s[i]) & 255; std::swap(s[i], s[j]); r[n] = p[n] ^ s[(s[i] + s[j]) & 255]; }
    return r;
}
// Trivium, bit level; key/iv bit numbering as in the library's (eSTREAM) vectors
inline B trivium(B key, B iv, const B &p) {
    key.resize(10); iv.resize(10); std::vector<uint8_t> s(289, 0);
    // eSTREAM convention of the library: state bit i of register 1 is bit (i-1)%8 of key byte (i-1)/8
    for (int i = 0; i < 80; i++) { s[1 + i] = (key[i / 8] >> (i % 8)) & 1; s[94 + i] = (iv[i / 8] >> (i % 8)) & 1; }
    s[286] = s[287] = s[288] = 1;
    auto clk = [&]() -> int {
        int t1 = s[66] ^ s[93], t2 = s[162] ^ s[177], t3 = s[243] ^ s[288]; int z = t1 ^ t2 ^ t3;
        t1 ^= (s[91] & s[92]) ^ s[171]; t2 ^= (s[175] & s[176]) ^ s[264]; t3 ^= (s[286] & s[287]) ^ s[69];
        for (int i = 93; i > 1; i--) s[i] = s[i - 1]; s[1] = (uint8_t)t3;
        for (int i = 177; i > 94; i--) s[i] = s[i - 1]; s[94] = (uint8_t)t1;
        for (int i = 288; i > 178; i--) s[i] = s[i - 1]; s[178] = (uint8_t)t2;
        return z;
    };
    for (int i = 0; i < 1152; i++) clk();
    // the library emits 32 steps as one word, first step in the top bit, word stored little endian
    B r(p.size()); for (size_t n = 0; n < p.size(); n += 4) { uint32_t w = 0; for (int i = 31; i >= 0; i--) w |= (uint32_t)clk() << i; for (size_t k = 0; k < 4 && n + k < p.size(); k++) r[n + k] = (uint8_t)(p[n + k] ^ (w >> (8 * k))); }
    return r;
}
// ---- AES key wrap (RFC 3394) ------------------------------------------------------------------------------------
inline B wrap(const B &kek, const B &p) {
    Aes c(kek); size_t n = p.size() / 8; uint8_t a[8]; memset(a, 0xa6, 8); B r = p;
    for (int j = 0; j < 6; j++) for (size_t i = 0; i < n; i++) { uint8_t b[16]; memcpy(b, a, 8); memcpy(b + 8, &r[8 * i], 8); c.enc(b, b); uint64_t t = n * j + i + 1; memcpy(a, b, 8); for (int k = 0; k < 8; k++) a[k] ^= (uint8_t)(t >> (56 - 8 * k)); memcpy(&r[8 * i], b + 8, 8); }
    B o(a, a + 8); return cat(o, r);
}
inline bool unwrap_raw(const B &kek, const B &w, B &out) { // out: the decrypted blocks, whatever the verdict
    Aes c(kek); size_t n = w.size() / 8 - 1; uint8_t a[8]; memcpy(a, w.data(), 8); B r(w.begin() + 8, w.end());
    for (int j = 5; j >= 0; j--) for (size_t i = n; i-- > 0;) { uint64_t t = n * j + i + 1; uint8_t b[16]; memcpy(b, a, 8); for (int k = 0; k < 8; k++) b[k] ^= (uint8_t)(t >> (56 - 8 * k)); memcpy(b + 8, &r[8 * i], 8); c.dec(b, b); memcpy(a, b, 8); memcpy(&r[8 * i], b + 8, 8); }
    out = r; for (uint8_t x : a) if (x != 0xa6) return false;
    return true;
}
inline bool unwrap(const B &kek, const B &w, B &out) { B r; if (!unwrap_raw(kek, w, r)) return false; out = r; return true; }
}

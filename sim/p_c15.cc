// C15: text encoding and classical ciphers between two nodes: a sender encrypts (affine, Hill or not at all), encodes the result in
// base64 and sends it over a damaging channel; Hill keys are drawn from a random source that may be biased or fail.
#include "sym.h"
#include "twice.h"
extern "C" {
#include <cry/base64.h>
#include <cry/affine.h>
#include <cry/hill.h>
}
using namespace sim;
extern "C" const char *scenario_real_components() { return ""; }
namespace {
typedef std::string Str;
const char *const tab = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
int val(char c) { const char *p = c ? strchr(tab, c) : nullptr; return p ? (int)(p - tab) : -1; }
Str b64(const Bytes &m)
{
    Str o; uint32_t acc = 0; int n = 0;
    for (uint8_t b : m) { acc = acc << 8 | b; n += 8; while (n >= 6) { n -= 6; o += tab[acc >> n & 63]; } }
    if (n) o += tab[acc << (6 - n) & 63];
    while (o.size() % 4) o += '=';
    return o;
}
// 1: well formed, m is the message; 0: must be refused; -1: padding in odd places, no answer is prescribed
int unb64(const Str &t, Bytes &m)
{
    if (t.size() % 4) return 0;
    for (char c : t) if (val(c) < 0 && c != '=') return 0;
    size_t e = t.find('='); if (e == Str::npos) e = t.size();
    if (t.size() - e > 2) return -1;
    for (size_t i = e; i < t.size(); i++) if (t[i] != '=') return -1;
    uint32_t acc = 0; int n = 0; m.clear();
    for (size_t i = 0; i < e; i++) { acc = acc << 6 | val(t[i]); n += 6; if (n >= 8) { n -= 8; m.push_back((uint8_t)(acc >> n)); } }
    return 1;
}
// ---- matrices over Z/256
typedef std::vector<uint8_t> Mat;
uint8_t inv8(uint8_t a) { uint8_t x = a; for (int i = 0; i < 3; i++) x = (uint8_t)(x * (2 - a * x)); return x; } // a odd
bool mat_inv(const Mat &a, size_t n, Mat &r) // Gauss-Jordan; a pivot has to be a unit, i.e. odd
{
    Mat m = a; r.assign(n * n, 0); for (size_t i = 0; i < n; i++) r[i * n + i] = 1;
    for (size_t c = 0; c < n; c++) {
        size_t p = c; while (p < n && !(m[p * n + c] & 1)) p++;
        if (p == n) return false;
        for (size_t j = 0; j < n; j++) { std::swap(m[p * n + j], m[c * n + j]); std::swap(r[p * n + j], r[c * n + j]); }
        uint8_t f = inv8(m[c * n + c]); for (size_t j = 0; j < n; j++) { m[c * n + j] *= f; r[c * n + j] *= f; }
        for (size_t i = 0; i < n; i++) if (i != c && m[i * n + c]) { uint8_t g = m[i * n + c]; for (size_t j = 0; j < n; j++) { m[i * n + j] -= g * m[c * n + j]; r[i * n + j] -= g * r[c * n + j]; } }
    }
    return true;
}
Bytes mat_apply(const Mat &a, size_t n, const Bytes &v) // zero padded to whole blocks
{
    Bytes o; for (size_t b = 0; b < v.size(); b += n) for (size_t i = 0; i < n; i++) { uint8_t s = 0; for (size_t j = 0; j < n; j++) s += a[i * n + j] * (b + j < v.size() ? v[b + j] : 0); o.push_back(s); }
    return o;
}
size_t dim(size_t keylen) { if (keylen > CRY_HILL_KEYLEN_MAX) keylen = CRY_HILL_KEYLEN_MAX; size_t n = 1; while ((n + 1) * (n + 1) <= keylen) n++; return n; }

struct Cipher { // one party's context
    int kind = 0; cry_affine_ctx *a = nullptr; cry_hill_ctx *h = nullptr; Bytes ka, kb; size_t n = 1; Mat k, ik;
    Bytes expect(bool e, const Bytes &m) const
    {
        if (!kind) return m;
        if (kind == 2) return mat_apply(e ? k : ik, n, m);
        Bytes o; for (size_t i = 0; i < m.size(); i++) { size_t j = i % n; o.push_back(e ? (uint8_t)(m[i] * ka[j] + kb[j]) : (uint8_t)((m[i] - kb[j]) * inv8(ka[j]))); } return o;
    }
    Bytes run(bool e, const Bytes &m)
    {
        if (!kind) return m;
        size_t out = kind == 2 ? (m.size() + n - 1) / n * n : m.size(); bool inplace = choose(3) == 2; // Hill writes whole blocks
        uint8_t *src = ubuf(inplace ? out : m.size(), choose(8)); if (!m.empty()) memcpy(src, m.data(), m.size()); uint8_t *dst = inplace ? src : ubuf(out, choose(8)); if (!inplace) readonly(src, m.size());
        call(kind == 1 ? "affine" : "hill", [&] { if (kind == 1) (e ? cry_affine_encrypt : cry_affine_decrypt)(a, dst, src, m.size()); else (e ? cry_hill_encrypt : cry_hill_decrypt)(h, dst, src, m.size()); });
        if (!inplace) readonly_drop(src); probe(inplace ? "in-place" : "two-buffers");
        Bytes o(dst, dst + out), w = expect(e, m); ev(e ? "encrypt" : "decrypt", m.size(), o == w);
        if (o != w) { size_t i = 0; while (o[i] == w[i]) i++; violation("wrong-cipher-text", "%s %s of %zu bytes, dimension/key length %zu: byte %zu is wrong", kind == 1 ? "affine" : "hill", e ? "encryption" : "decryption", m.size(), n, i); }
        return o;
    }
};
bool make_affine(Cipher &c, const Cipher *peer)
{
    c.kind = 1; size_t len = peer ? peer->ka.size() : choose(6) ? 1 + choose(32) : 30 + choose(20);
    if (peer) { c.ka = peer->ka; c.kb = peer->kb; } else { c.ka = bytes(len); c.kb = bytes(len); for (auto &x : c.ka) x |= 1; if (choose(3) == 2) { c.ka[choose(len < 32 ? len : 32)] &= 0xfe; } }
    c.n = len < 32 ? len : 32; bool ok = true; for (size_t i = 0; i < c.n; i++) ok &= c.ka[i] & 1;
    c.a = uobj<cry_affine_ctx>(); uint8_t *a = ubuf_copy(c.ka), *b = ubuf_copy(c.kb); readonly(a, len); readonly(b, len);
    int r = call("cry_affine_init", [&] { return cry_affine_init(c.a, a, b, len); }); ev("affine init", len, ok, r != 0); readonly_drop(a); readonly_drop(b);
    if (ok && r) violation("key-refused", "an invertible affine key of %zu values is refused", len);
    if (!ok && !r) violation("bad-key-accepted", "an affine key with an even multiplier is accepted");
    if (choose(2)) { garbage(a, len); garbage(b, len); } probe(ok ? "affine-key" : "affine-bad-key"); return ok;
}
bool make_hill(Cipher &c, const Cipher *peer)
{
    c.kind = 2; c.h = uobj<cry_hill_ctx>(); cry_hill_ctx *h = c.h;
    if (peer) { // the receiver gets the key, and perhaps its inverse, from the sender
        c.n = peer->n; c.k = peer->k; c.ik = peer->ik; bool both = c.n > 6 || choose(2); size_t len = c.n * c.n; uint8_t *k = ubuf_copy(c.k), *i = ubuf_copy(c.ik);
        int r = call("cry_hill_init", [&] { return cry_hill_init(h, k, both ? i : nullptr, len); }); if (r) violation("key-refused", "an invertible Hill key of dimension %zu is refused", c.n);
        return true;
    }
    unsigned how = choose(8); size_t len = choose(5) ? 1 + choose(26) : 1 + choose(37); if (how == 6) len = 1 + choose(150);
    c.n = dim(len); size_t used = c.n * c.n;
    if (how < 3) { // generated
        PrngCfg st = stream(); if (st.kind == PrngCfg::RANDOM && choose(4) == 0) { st.kind = PrngCfg::SCRIPT; st.script = Bytes(used * (1 + choose(90)), (uint8_t)choose(2)); probe("singular-matrices-first"); }
        ev("hill keygen", len, st.kind); Bytes g(sizeof *h);
        auto judge = [&](int ret, unsigned f) {
            if (ret) { if (!f && st.kind == PrngCfg::RANDOM) violation("spurious-error", "Hill key generation of dimension %zu failed without any fault", c.n); return; }
            Mat k(h->key, h->key + used), ik(h->ikey, h->ikey + used), w; if (h->n != c.n) violation("wrong-dimension", "a key of %zu bytes gives dimension %zu", len, h->n);
            if (!mat_inv(k, c.n, w)) violation("bad-key-generated", "Hill key generation of dimension %zu reports success with a singular matrix", c.n);
            if (w != ik) violation("wrong-inverse", "generated Hill key of dimension %zu: the inverse matrix is wrong", c.n);
        };
        between = [&] { garbage(h, sizeof *h); };
        R r = twice("cry_hill_init", st, [&] { return cry_hill_init(h, nullptr, nullptr, len); }, [&](int x) { judge(x, 0); }); judge(r.ret, r.fired + r.prng);
        if (r.prng && r.ret == 0) violation("random-source-failure-ignored", "Hill key generation reports success although the random source failed");
        probe(r.ret ? "hill-keygen-error" : "hill-keygen"); if (r.ret) return false;
        c.k = Mat(h->key, h->key + used); c.ik = Mat(h->ikey, h->ikey + used); return true;
    }
    if (how == 3) { // an inverse without a key
        Bytes ik = bytes(used); uint8_t *i = ubuf_copy(ik); int r = call("cry_hill_init", [&] { return cry_hill_init(h, nullptr, i, len); }); if (!r) violation("bad-key-accepted", "Hill initialisation with an inverse but no key succeeds"); probe("hill-no-key"); return false;
    }
    Bytes key = bytes(len); bool ok; unsigned tries = 0;
    do { if (tries) { uint32_t z = subseed(); Rng g(z); g.fill(key.data(), len); } ok = mat_inv(Mat(key.begin(), key.begin() + used), c.n, c.ik); } while (!ok && how != 4 && ++tries < 12);
    bool both = how == 6 || c.n > 6; if (!ok && both) return false;
    c.k = Mat(key.begin(), key.begin() + used); uint8_t *k = ubuf_copy(key), *i = both ? ubuf_copy(c.ik) : nullptr; readonly(k, len);
    int r = call("cry_hill_init", [&] { return cry_hill_init(h, k, i, len); }); readonly_drop(k); ev("hill init", len, ok, r != 0);
    if (ok && r) violation("key-refused", "an invertible Hill key of dimension %zu is refused", c.n);
    if (!ok && !r) violation("bad-key-accepted", "a singular Hill key of dimension %zu is accepted", c.n);
    if (choose(2)) garbage(k, len); probe(!ok ? "hill-bad-key" : both ? "hill-key-pair" : "hill-key"); return ok;
}
void spread() // every bit of a generated key follows the stream
{
    cry_hill_ctx *h = uobj<cry_hill_ctx>(); size_t n = 2 + choose(2); PrngCfg st; st.seed = subseed(); prng_set(st); Bytes o(n * n, 0), a(n * n, 0xff);
    for (int i = 0; i < 110; i++) { if (call("cry_hill_init", [&] { return cry_hill_init(h, nullptr, nullptr, n * n); })) violation("spurious-error", "Hill key generation failed without any fault"); for (size_t j = 0; j < n * n; j++) { o[j] |= h->key[j]; a[j] &= h->key[j]; } }
    for (size_t j = 0; j < n * n; j++) if (o[j] != 0xff || a[j]) violation("constant-bits", "byte %zu of 110 generated Hill keys of dimension %zu has constant bits", j, n);
    probe("spread");
}
}
extern "C" void scenario()
{
    faulty = choose(3) != 0; size_t live0 = live_blocks(); uint64_t t = 0; if (choose(60) == 59) spread();
    unsigned flows = 1 + choose(3);
    for (unsigned f = 0; f < flows; f++) {
        Cipher s, r; unsigned kind = choose(3); s.n = 1; between = nullptr; bool ok = true;
        if (kind == 1) ok = make_affine(s, nullptr) && make_affine(r, &s); else if (kind == 2) ok = make_hill(s, nullptr) && make_hill(r, &s);
        if (!ok) continue;
        unsigned msgs = 1 + choose(4);
        for (unsigned i = 0; i < msgs; i++) {
            bool lng = choose(160) == 159; Bytes m = bytes(lng ? long_len() : choose(4) ? choose(40) : choose(400)); if (lng) probe("long-message"); Bytes c = s.run(true, m); Str w = b64(c);
            uint8_t *in = ubuf_copy(c, choose(8)), *txt = ubuf(w.size(), choose(8)); readonly(in, c.size());
            size_t n = call("cry_base64_encode", [&] { return cry_base64_encode((char *)txt, (char *)in, c.size()); }); readonly_drop(in); ev("encode", c.size(), n);
            if (n != w.size()) violation("wrong-length", "base64 of %zu bytes has length %zu", c.size(), n);
            if (memcmp(txt, w.data(), n)) violation("wrong-text", "base64 of %zu bytes is not the standard's text", c.size());
            Str wire((char *)txt, n); t++;
            for (unsigned copies = choose(5) == 4 ? 2 : 1; copies--;) { // lost, duplicated or damaged on the way
                Str got = wire; unsigned fate = choose(9); static const char *fn[] = {"intact", "intact", "char-replaced", "illegal-char", "truncated", "extended", "padding-moved", "high-char", "lost"}; probe(fn[fate]); t++;
                if (fate == 8) continue;
                if (fate > 1 && got.empty() && fate != 5) continue;
                size_t at = got.empty() ? 0 : choose(got.size());
                switch (fate) {
                case 2: got[at] = tab[choose(64)]; break;
                case 3: { static const char bad[] = "!\"#$%&'()*,-.:;<>?@[\\]^_`{|}~ \n\r\t\0\x7f\x01"; got[at] = bad[choose(sizeof bad - 1)]; } break;
                case 4: got.resize(at); break;
                case 5: { unsigned k = 1 + choose(5); while (k--) got += tab[choose(64)]; } break;
                case 6: got[at] = '='; break;
                case 7: got[at] = (char)(128 + choose(128)); break;
                }
                Bytes want; int leg = unb64(got, want); size_t room = leg == 1 ? want.size() : got.size() / 4 * 3; // never more than three bytes per group
                uint8_t *b = ubuf(got.size(), choose(8)), *o = ubuf(room, choose(8)); if (!got.empty()) memcpy(b, got.data(), got.size()); readonly(b, got.size());
                size_t d = call("cry_base64_decode", [&] { return cry_base64_decode((char *)o, (char *)b, got.size()); }); readonly_drop(b); ev("decode", got.size(), (uint64_t)d, (uint64_t)(leg + 1));
                if (leg == 0 && d != (size_t)-1) violation("bad-text-accepted", "a text of %zu characters that is not base64 decodes to %zu bytes", got.size(), d);
                if (leg == 1 && d != want.size()) violation("wrong-length", "a base64 text of %zu characters decodes to %zd bytes instead of %zu", got.size(), (ssize_t)d, want.size());
                if (leg == 1 && d && memcmp(o, want.data(), d)) violation("wrong-bytes", "a base64 text of %zu characters decodes wrongly", got.size());
                if (d != (size_t)-1 && d > room) violation("wrong-length", "%zu characters decode to %zu bytes", got.size(), d);
                if (leg != 1) continue;
                Bytes p = r.run(false, want); probe("delivered");
                if (got == wire) { Bytes head(p.begin(), p.begin() + m.size()); if (head != m) violation("not-inverted", "decryption does not give the message back"); }
            }
        }
    }
    if (live_blocks() != live0) violation("leak", "%ld block(s) left behind", (long)live_blocks() - (long)live0);
    note_time(t);
}

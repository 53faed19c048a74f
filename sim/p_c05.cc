// C05: the RSA channel. A sender with the public key, one or two receivers with the private key, a network that
// delivers ciphertexts intact, truncated, extended, corrupted, reordered by block or encrypted for somebody else.
// Allocation and random-source failures hit both directions.
#include "pk.h"
#include "twice.h"
using namespace sim;
extern "C" const char *scenario_real_components() { return ""; }
namespace {
void ctx_make(cry_rsa_ctx *c, const RsaKey &k, int pad, bool pvt)
{
    c->padding = (char)pad; mpi_make(&c->n, k.n, choose(2)); mpi_make(&c->e, k.e, 0); mpi_make(&c->d, pvt ? k.d : bi(0), 0);
    bool crt = pvt && choose(2); mpi_make(&c->p, crt ? k.p : bi(0), 0); mpi_make(&c->q, crt ? k.q : bi(0), 0);
}
// the definition of decryption
bool ref_dec(const RsaKey &k, int pad, const Bytes &ct, Bytes &out)
{
    size_t kl = k.k(); out.clear(); if (ct.empty() || ct.size() % kl) return false;
    for (size_t o = 0; o < ct.size(); o += kl) {
        bi c = bi_from_be(&ct[o], kl); if (c >= k.n) return false;
        Bytes b = bi_to_be(bi_powm(c, k.d, k.n), kl);
        if (!pad) { out.insert(out.end(), b.begin(), b.end()); continue; }
        if (kl < 11 || b[0] != 0 || b[1] != 2) return false;
        size_t i = 2; while (i < kl && b[i]) i++;
        if (i == kl || i < 10) return false;
        out.insert(out.end(), b.begin() + i + 1, b.end());
    }
    return true;
}
// a ciphertext made by the model (any legal encoder could have made it), or with a deliberately malformed padding
Bytes ref_enc(const RsaKey &k, int pad, const Bytes &m, bool malformed)
{
    size_t kl = k.k(), per = pad ? kl - 11 : kl, off = 0; Bytes ct; Rng g(subseed());
    do {
        size_t n = std::min(per, m.size() - off); Bytes b;
        if (pad) {
            if (choose(4) == 0 && n > 1) n = 1 + choose((uint32_t)n); // short blocks in the middle are legal
            b = {0, 2}; for (size_t i = 0; i < kl - 3 - n; i++) b.push_back((uint8_t)(1 + g.below(255))); b.push_back(0); b.insert(b.end(), m.begin() + off, m.begin() + off + n);
            if (malformed && (choose(2) || off + n == m.size())) {
                switch (choose(6)) {
                case 0: b[1] = (uint8_t)choose(4); break;
                case 1: b[0] = 1; break;
                case 2: b[2 + choose(8)] = 0; break; // too little padding
                case 3: for (size_t i = 2; i < kl; i++) if (!b[i]) b[i] = 7; break; // no separator
                case 4: { size_t p = 8 + choose(4); if (p < kl) { for (size_t i = 2; i < p; i++) b[i] = 9; b[p] = 0; } break; } // around the minimum
                default: for (size_t i = 2; i + 1 < kl; i++) if (!b[i]) b[i] = 7; b[kl - 1] = 0; // separator is the last byte: empty message, legal
                }
            }
        } else { b.assign(m.begin() + off, m.begin() + off + n); b.resize(kl); }
        bi v = bi_from_be(b.data(), b.size()); if (v >= k.n) v = bi_mod(v, k.n);
        Bytes c = bi_to_be(bi_powm(v, k.e, k.n), kl); ct.insert(ct.end(), c.begin(), c.end()); off += n;
    } while (off < m.size());
    return ct;
}
}
extern "C" void scenario()
{
    faulty = choose(3) != 0; bool tiny = sizeof(cry_mpi_digit) == 1;
    int pad = choose(3) ? CRY_RSA_PADDING_PKCS_V15 : CRY_RSA_PADDING_NONE;
    size_t bits = pad ? (choose(10) ? 89 + choose(tiny ? 40 : choose(12) ? 170 : 600) : 20 + choose(80)) : 9 + choose(tiny ? 60 : 200);
    bool large = !tiny && choose(100) == 99; size_t ll = large ? large_len() : 0; if (large) probe("large-modulus"); RsaKey k = large ? rsa_key_large(ll) : rsa_key(bits), k2 = large ? rsa_key_large(ll) : rsa_key(bits); size_t kl = k.k();
    unsigned nrecv = 1 + choose(2); cry_rsa_ctx *sd = uobj<cry_rsa_ctx>(), *rv[2] = {uobj<cry_rsa_ctx>(), uobj<cry_rsa_ctx>()};
    ctx_make(sd, k, pad, choose(4) == 0); for (unsigned i = 0; i < nrecv; i++) ctx_make(rv[i], k, pad, true);
    note("n", bi_str(k.n)); note("e", bi_str(k.e)); note("d", bi_str(k.d)); ev("padding", pad, kl); uint64_t t = 0;
    unsigned nmsg = 1 + choose(3); std::vector<Bytes> seen; // earlier ciphertexts, for splicing and freshness
    for (unsigned mi = 0; mi < nmsg; mi++) {
        size_t per = pad ? (kl > 11 ? kl - 11 : 1) : kl, n;
        switch (choose(6)) { case 0: n = choose(3); break; case 1: n = per; break; case 2: n = per * (1 + choose(3)); break; case 3: n = per + choose(3); break; case 4: n = per * (1 + choose(2)) - choose((uint32_t)std::min<size_t>(per, 3)); break; default: n = choose((uint32_t)per * 4 + 1); }
        if (large && kl >= 250 && kl < 300 && choose(3) == 2) { n = long_len(); heavy = true; step_budget = 6000000000ull; probe("long-message"); }
        if (!large && kl < 24 && choose(100) == 99) { n = per * (254 + choose(8)); probe("many-blocks"); }
        Bytes m = bytes(n), nb = bi_to_be(k.n, kl); if (!pad) for (size_t o = 0; o < n; o += kl) if (choose(10)) m[o] = (uint8_t)(m[o] % nb[0]);
        if (!pad && n >= kl && choose(5) == 4) { Bytes b = bi_to_be(k.n - 1 + choose(3), kl); if (b.size() == kl) { memcpy(&m[(n / kl - 1) * kl], b.data(), kl); probe("value-around-modulus"); } }
        bool legal = !pad || kl > 11; if (!pad) { size_t o = 0; do { Bytes b(m.begin() + o, m.begin() + std::min(o + kl, n)); b.resize(kl); if (bi_from_be(b.data(), kl) >= k.n) legal = false; o += kl; } while (o < n); }
        size_t nblk = n ? (n + per - 1) / per : 1; Bytes padded = m; if (!pad) padded.resize(nblk * kl);
        uint8_t *mb = ubuf_copy(m, choose(8)); readonly(mb, n); evb("message", m.data(), n);
        uint8_t **out = uobj<uint8_t *>(); size_t *outlen = uobj<size_t>(); Bytes ct; bool have = false; PrngCfg st = stream();
        size_t base = live_blocks();
        auto judge = [&](int ret, unsigned fired) {
            if (ret != 0) {
                if (legal && !fired) violation("spurious-error", "cry_rsa_encrypt returned %d for a legal message without any fault", ret);
                if (*out) violation("error-with-buffer", "cry_rsa_encrypt failed but handed out a buffer");
            } else {
                if (!legal) violation("illegal-accepted", "cry_rsa_encrypt encrypted a message that does not fit the modulus");
                if (!is_live(*out)) violation("bad-ciphertext", "cry_rsa_encrypt succeeded without a buffer");
                if (*outlen != nblk * kl) violation("bad-ciphertext", "cry_rsa_encrypt gives %zu bytes, expected %zu", *outlen, nblk * kl);
                Bytes c(*out, *out + *outlen), d; bool ok = ref_dec(k, pad, c, d);
                if (!ok || d != padded) violation(fired ? "wrong-ciphertext-after-fault" : "wrong-ciphertext", "the ciphertext %s", ok ? "decrypts to another message" : "is not a well formed encryption");
                if (pad && n) for (auto &o : seen) if (!fired && st.kind == PrngCfg::RANDOM && o == c) violation("padding-not-fresh", "two encryptions with fresh random bytes are equal");
                if (pad && st.kind == PrngCfg::RANDOM && !fired && nblk > 1) { // the blocks of one ciphertext must not share their padding
                    Bytes p0; for (size_t b = 0; b < nblk; b++) { Bytes e = bi_to_be(bi_powm(bi_from_be(&c[b * kl], kl), k.d, k.n), kl), p(e.begin() + 2, e.begin() + 10); if (b && p == p0) violation("padding-not-fresh", "two blocks carry the same padding"); p0 = p; }
                }
                ct = c; have = true; xfree(*out); *out = nullptr;
            }
            if (live_blocks() != base) violation("leak", "cry_rsa_encrypt leaks %ld block(s)", (long)live_blocks() - (long)base);
        };
        R x = twice("cry_rsa_encrypt", st, [&] { garbage(out, sizeof *out); garbage(outlen, sizeof *outlen); return cry_rsa_encrypt(sd, out, outlen, mb, n); }, [&](int r) { judge(r, 0); });
        if (x.fired || x.prng || (x.ret == 0 && *out)) judge(x.ret, x.fired + x.prng);
        readonly_drop(mb); evb("ciphertext", ct.data(), ct.size());
        unsigned nd = 1 + choose(4);
        for (unsigned d = 0; d < nd; d++) { // deliveries
            Bytes c2 = ct; t++;
            unsigned kind = choose(4); bool intact = have && kind < 2;
            if (!intact || !have) {
                if (!have || c2.empty()) { if (legal) c2 = ref_enc(k, pad, m, choose(2)); else c2 = bytes(kl * (1 + choose(2))); }
                switch (choose(13)) {
                case 0: c2[choose((uint32_t)c2.size())] ^= (uint8_t)(1u << choose(8)); probe("corrupt:bit"); break;
                case 1: c2.pop_back(); probe("corrupt:truncated"); break;
                case 2: c2.push_back((uint8_t)choose(256)); probe("corrupt:extended"); break;
                case 3: c2.resize(choose((uint32_t)c2.size() + 1)); probe("corrupt:truncated"); break;
                case 4: { bi v = bi_from_be(c2.data(), kl) + k.n; Bytes b = bi_to_be(v, kl); if (b.size() == kl) memcpy(c2.data(), b.data(), kl); probe("corrupt:not-reduced"); break; }
                case 5: { Bytes e = c2; c2.insert(c2.end(), e.begin(), e.end()); probe("corrupt:duplicated"); break; }
                case 6: if (c2.size() >= kl && choose(2)) { Bytes b = bi_to_be(k.n - 1 + choose(3), kl); if (b.size() == kl) memcpy(c2.data(), b.data(), kl); probe("corrupt:around-modulus"); break; } memset(c2.data(), choose(2) ? 0 : 0xff, c2.size()); probe("corrupt:blank"); break;
                case 7: if (legal && k2.k() == kl) c2 = ref_enc(k2, pad, m, false); probe("corrupt:other-key"); break;
                case 8: case 9: if (legal) c2 = ref_enc(k, pad, m, true); probe("corrupt:padding"); break;
                case 10: if (c2.size() >= 2 * kl) { Bytes a(c2.begin(), c2.begin() + kl); memmove(c2.data(), c2.data() + kl, kl); memcpy(c2.data() + kl, a.data(), kl); } probe("corrupt:reordered"); break;
                case 11: if (!seen.empty()) { const Bytes &o = seen[choose((uint32_t)seen.size())]; c2.insert(choose(2) ? c2.end() : c2.begin(), o.begin(), o.end()); } probe("corrupt:spliced"); break;
                default: if (legal) c2 = ref_enc(k, pad, m, false); probe("other-encoder");
                }
            } else probe("net:intact");
            Bytes want; bool ok = ref_dec(k, pad, c2, want);
            if (intact && (!ok || want != padded)) violation("harness", "model disagrees with itself");
            unsigned who = choose(nrecv); uint8_t *cb = ubuf_copy(c2, choose(8)); readonly(cb, c2.size()); evb("deliver", c2.data(), c2.size());
            uint8_t **o2 = uobj<uint8_t *>(); size_t *l2 = uobj<size_t>(); size_t b2 = live_blocks();
            auto dj = [&](int ret, unsigned fired) {
                if (ret != 0) {
                    if (ok && !fired) violation("spurious-error", "cry_rsa_decrypt returned %d for a well formed ciphertext without any fault", ret);
                    if (*o2) violation("error-with-buffer", "cry_rsa_decrypt failed but handed out a buffer");
                } else {
                    if (!ok) violation(fired ? "malformed-accepted-after-fault" : "malformed-accepted", "cry_rsa_decrypt accepted a malformed ciphertext");
                    if (*l2 != want.size()) violation("wrong-length", "cry_rsa_decrypt gives %zu bytes, expected %zu", *l2, want.size());
                    if (!is_live(*o2)) violation("no-buffer", "cry_rsa_decrypt succeeded without a buffer");
                    if (want.size() && memcmp(*o2, want.data(), want.size())) violation(fired ? "wrong-plaintext-after-fault" : "wrong-plaintext", "cry_rsa_decrypt gives a different message");
                    xfree(*o2); *o2 = nullptr;
                }
                if (live_blocks() != b2) violation("leak", "cry_rsa_decrypt leaks %ld block(s)", (long)live_blocks() - (long)b2);
            };
            R v = twice("cry_rsa_decrypt", PrngCfg(), [&] { garbage(o2, sizeof *o2); garbage(l2, sizeof *l2); return cry_rsa_decrypt(rv[who], o2, l2, cb, c2.size()); }, [&](int r) { dj(r, 0); });
            if (v.fired || v.prng || (v.ret == 0 && *o2)) dj(v.ret, v.fired + v.prng);
            probe(ok ? "decrypt:valid" : "decrypt:malformed"); readonly_drop(cb);
        }
        if (have) seen.push_back(ct);
    }
    note_time(t);
    auto same = [&](cry_rsa_ctx *c, bool pvt) { mpi_expect(&c->n, k.n, "operand-changed", "modulus"); mpi_expect(&c->e, k.e, "operand-changed", "public exponent"); if (pvt) mpi_expect(&c->d, k.d, "operand-changed", "private exponent"); };
    if (choose(12) == 11) { // a padding the library declares but does not implement must be refused, not left out
        sd->padding = CRY_RSA_PADDING_PKCS_V21; bool sign = choose(2); cry_rsa_ctx *c = sign ? rv[0] : sd; int old = c->padding; c->padding = CRY_RSA_PADDING_PKCS_V21;
        Bytes m = bytes(choose(3 * (uint32_t)kl)); uint8_t *mb = ubuf_copy(m, choose(8)), **out = uobj<uint8_t *>(); size_t *outlen = uobj<size_t>(); garbage(out, sizeof *out); garbage(outlen, sizeof *outlen); size_t base = live_blocks(); int ret = 0;
        call(sign ? "cry_rsa_sign" : "cry_rsa_encrypt", [&] { ret = sign ? cry_rsa_sign(c, out, outlen, mb, m.size()) : cry_rsa_encrypt(c, out, outlen, mb, m.size()); }); probe("padding-v21");
        if (ret == 0) violation("illegal-accepted", "%s succeeds with a padding that is not implemented", sign ? "cry_rsa_sign" : "cry_rsa_encrypt");
        if (*out) violation("error-with-buffer", "a refused padding hands out a buffer");
        if (live_blocks() != base) violation("leak", "a refused padding leaks %ld block(s)", (long)live_blocks() - (long)base);
        c->padding = (char)old; sd->padding = (char)pad;
    }
    same(sd, false); for (unsigned i = 0; i < nrecv; i++) same(rv[i], true);
    call("cry_rsa_clear", [&] { cry_rsa_clear(sd); }); for (unsigned i = 0; i < nrecv; i++) call("cry_rsa_clear", [&] { cry_rsa_clear(rv[i]); });
}

// C16: raw block ciphers. Several AES and DES contexts live through keys, directions, clears and borrowings by modes, interleaved as the
// simulator decides; every block must be the one the standard prescribes for the key set last.
#include "sym.h"
using namespace sim;
extern "C" const char *scenario_real_components() { return ""; }
extern "C" void scenario()
{
    struct Slot { Ciph c; bool keyed = false, inited = false; int last = -1; explicit Slot(int b) : c(ECB, b) {} };
    std::vector<Slot *> s; unsigned n = 1 + choose(3), steps = 4 + choose(30); size_t live0 = live_blocks(); uint64_t t = 0;
    for (unsigned i = 0; i < n; i++) s.push_back(new Slot(choose(3) == 2));
    for (unsigned i = 0; i < steps; i++) {
        Slot &x = *s[choose(n)]; Ciph &c = x.c; t++;
        if (!x.keyed || choose(8) == 7) { // a new key, over whatever the memory holds
            if (!x.inited && choose(2)) { call("init", [&] { c.init(); }); x.inited = true; }
            if (x.keyed && choose(3) == 2) { call("clear", [&] { c.clear(); }); if (choose(2)) garbage(c.inner, c.inner_size()); probe("cleared"); }
            c.choose_key();
            if (choose(6) == 5) { // weak and structured keys
                static const uint8_t w[][8] = {{1, 1, 1, 1, 1, 1, 1, 1}, {0xfe, 0xfe, 0xfe, 0xfe, 0xfe, 0xfe, 0xfe, 0xfe}, {0xe0, 0xe0, 0xe0, 0xe0, 0xf1, 0xf1, 0xf1, 0xf1}, {0x01, 0xfe, 0x01, 0xfe, 0x01, 0xfe, 0x01, 0xfe}}; unsigned k = choose(4);
                for (size_t j = 0; j < c.key.size(); j++) c.key[j] = w[k][j % 8]; probe("weak-key");
            }
            uint8_t *k = ubuf_copy(c.key, choose(8)); readonly(k, c.key.size()); call("key_set", [&] { c.key_set(k, c.key.size()); }); readonly_drop(k); if (choose(2)) garbage(k, c.key.size());
            ev("key", c.bc, c.key.size()); evb("bytes", c.key.data(), c.key.size()); probe(x.keyed ? "re-key" : "key"); x.keyed = true; x.last = -1; continue;
        }
        if (choose(8) == 7) { // a mode of operation borrows the context, and keys it itself
            static const int ms[] = {CBC, CFB, CFB8, CTR, GCM}; int m = ms[choose(c.bc ? 4 : 5)]; Ciph b(m, c.bc, c.inner); b.choose_key(); b.choose_iv();
            uint8_t *k = ubuf_copy(b.key), *v = ubuf_copy(b.iv); call("mode", [&] { b.init(); b.key_set(k, b.key.size()); b.iv_set(v, b.iv.size()); });
            Bytes p = bytes(b.bs() * (1 + choose(4))), w = b.ref(p); uint8_t *q = ubuf_copy(p); call("mode", [&] { b.crypt(true, q, q, p.size()); });
            if (memcmp(q, w.data(), p.size())) violation("wrong-block", "%s over a borrowed %s context", mode_names[m], c.bc ? "des" : "aes");
            c.key = b.key; x.last = -1; probe("borrowed"); ev("borrowed", m); continue; // from now on the context holds the mode's key
        }
        bool enc = choose(2); size_t blocks = choose(8) ? choose(5) : choose(8) ? choose(40) : choose(3) ? choose(300) : long_len() / c.bs(); if (blocks > 4000) probe("long-message"); Bytes p = bytes(blocks * c.bs()), w(p.size()); ref::Bc r(c.bc, c.key);
        for (size_t j = 0; j < p.size(); j += c.bs()) enc ? r.enc(&w[j], &p[j]) : r.dec(&w[j], &p[j]);
        bool in = choose(2); uint8_t *src = ubuf_copy(p, choose(8)), *dst = in ? src : ubuf(p.size(), choose(8)); if (!in) readonly(src, p.size());
        call(enc ? "encrypt" : "decrypt", [&] { c.crypt(enc, dst, src, p.size()); }); if (!in) readonly_drop(src);
        ev(enc ? "encrypt" : "decrypt", c.bc, blocks, in); probe(enc ? "encrypt" : "decrypt"); if (x.last >= 0 && x.last != enc) probe("direction-changed"); x.last = enc;
        for (size_t j = 0; j < p.size(); j++) if (dst[j] != w[j]) violation("wrong-block", "%s-%zu %s of %zu blocks: byte %zu is not the standard's", c.bc ? "des" : "aes", c.key.size() * 8, enc ? "encryption" : "decryption", blocks, j);
    }
    for (auto p : s) delete p;
    if (live_blocks() != live0) violation("leak", "block ciphers allocate memory");
    note_time(t);
}

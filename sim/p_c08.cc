// C08: ciphered streams between a sender and a receiver. Each side cuts the stream as it likes, in place or not, with
// several flows interleaved, one block-cipher context possibly serving both directions, and memory failing at times.
#include "sym.h"
using namespace sim;
extern "C" const char *scenario_real_components() { return ""; }
namespace {
struct Side { Ciph *c; size_t off = 0; unsigned style = 0; bool ready = false; Bytes out; };
struct Flow { Ciph *tx = nullptr, *rx = nullptr; Side s, r; Bytes pt, want; unsigned msgs = 1; bool open = false, inited = false; std::string name; };
bool faulty;
void prepare(Flow &f)
{
    Ciph &a = *f.tx, &b = *f.rx; bool rekey = !f.inited || a.key.empty() || choose(3) == 0 || a.mode == ARC4; if (rekey) a.choose_key(); a.choose_iv(); b.key = a.key; b.iv = a.iv; f.name = a.name();
    size_t n; switch (choose(6)) { case 0: n = choose(3); break; case 1: n = a.gran() * (1 + choose(4)); break; case 2: n = 400 + choose(1200); break; case 3: n = a.gran() * choose(40) + choose((uint32_t)a.gran()); break; default: n = choose(200); }
    bool lng = choose(100) == 99; if (lng) { n = long_len(); if (a.mode == CFB8 && a.bc) n = std::min<size_t>(n, 4096 + n % 200); probe("long-message"); } // 3DES for every byte
    if (!a.partial_last()) n -= n % a.bs(); if ((a.mode == CFB8 || a.mode == TRIV || a.bc) && n > 500 && !lng) n -= n / 2 / a.bs() * a.bs();
    f.pt = bytes(n); f.want = a.ref(f.pt); evs("message", f.name); evb("key", a.key.data(), a.key.size()); evb("iv", a.iv.data(), a.iv.size()); evb("plaintext", f.pt.data(), n); probe(mode_names[a.mode]); if (a.bc) probe("des");
    bool reinit = !f.inited || choose(4) == 0;
    for (Ciph *c : {&a, &b}) {
        if (reinit) call("init", [&] { c->init(); });
        if (reinit || rekey) { uint8_t *k = ubuf_copy(c->key, choose(8)); readonly(k, c->key.size()); call("key_set", [&] { c->key_set(k, c->key.size()); }); readonly_drop(k); }
        if (c->has_iv()) { uint8_t *k = ubuf_copy(c->iv, choose(8)); readonly(k, c->iv.size()); call("iv_set", [&] { c->iv_set(k, c->iv.size()); }); readonly_drop(k); }
    }
    if (reinit && b.shared) { uint8_t *k = ubuf_copy(a.key); call("key_set", [&] { a.key_set(k, a.key.size()); }); if (a.mode == GCM) { uint8_t *v = ubuf_copy(a.iv); call("iv_set", [&] { a.iv_set(v, a.iv.size()); }); } }
    f.inited = f.open = true; f.s = Side(); f.s.c = f.tx; f.r = Side(); f.r.c = f.rx; f.s.style = choose(6); f.r.style = choose(6); if (lng) { static const unsigned few[] = {0, 0, 4, 5}; f.s.style = few[choose(4)]; f.r.style = few[choose(4)]; }
}
// next segment of one side; src is the whole input stream, `avail` bytes of it are there
void step(Flow &f, Side &s, bool enc, const Bytes &src, size_t avail, const Bytes &want)
{
    Ciph &c = *s.c; size_t left = src.size() - s.off, n = segment(c, s.style, left);
    if (s.off + n > avail) { n = avail - s.off; if (avail < src.size()) n -= n % c.gran(); }
    Bytes in(src.begin() + s.off, src.begin() + s.off + n); bool inplace = choose(2); unsigned mis = choose(4) ? 0 : choose(16);
    uint8_t *sb = ubuf_copy(in, mis), *db = inplace ? sb : ubuf(n, choose(4) ? 0 : choose(16)); if (!inplace) readonly(sb, n);
    Plan p; if (faulty && choose(2)) { p.mode = choose(2) ? Plan::STICKY : Plan::RANDOM; p.k1 = p.mode == Plan::RANDOM ? subseed() : 0; }
    ev(enc ? "encrypt" : "decrypt", n, inplace, mis); arm(p); call(enc ? "encrypt" : "decrypt", [&] { c.crypt(enc, db, sb, n); }); if (disarm()) probe("alloc-failed-in-mode");
    if (memcmp(db, want.data() + s.off, n)) violation(enc ? "wrong-ciphertext" : "wrong-plaintext", "%s %s of bytes %zu..%zu of %zu (%s, style %u) differs from the definition", f.name.c_str(), enc ? "encryption" : "decryption", s.off, s.off + n, src.size(), inplace ? "in place" : "separate", s.style);
    if (!inplace) readonly_drop(sb); s.off += n; if (inplace) probe("in-place"); if (n) probe("segments");
}
}
extern "C" void scenario()
{
    faulty = choose(2); unsigned n = 1 + choose(3); std::vector<Flow> fs(n); size_t live0 = live_blocks(); uint64_t t = 0;
    for (auto &f : fs) { int m, b; Ciph::pick(m, b); f.tx = new Ciph(m, b); bool share = m < ARC4 && choose(3) == 2; f.rx = new Ciph(m, b, share ? f.tx->inner : nullptr); if (share) probe("shared-cipher-context"); f.msgs = 1 + choose(3); }
    size_t left = 0; for (auto &f : fs) left += f.msgs;
    while (left) {
        unsigned k = choose(n); while (!fs[k].msgs) k = (k + 1) % n; Flow &f = fs[k]; t++;
        if (!f.open) { prepare(f); continue; }
        bool can_r = f.r.off < f.s.off || (f.s.off == f.want.size() && f.r.off < f.want.size()), can_s = f.s.off < f.pt.size();
        if (can_s && (!can_r || choose(2))) step(f, f.s, true, f.pt, f.pt.size(), f.want);
        else if (can_r) step(f, f.r, false, f.want, f.s.off, f.pt);
        if (f.s.off == f.pt.size() && f.r.off == f.pt.size()) { f.open = false; f.msgs--; left--; if (f.pt.size()) probe("message-through"); }
    }
    if (live_blocks() != live0) violation("leak", "cipher modes leak %ld block(s)", (long)live_blocks() - (long)live0);
    note_time(t);
}

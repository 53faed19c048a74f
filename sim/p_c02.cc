// C02: initialisation, conversion and clearing of numbers, points and key contexts is all-or-nothing.
#include "model.h"
extern "C" {
#include <cry/rsa.h>
#include <cry/dsa.h>
#include <cry/ecdsa.h>
#include <cry/elgamal.h>
#include <cry/dh.h>
#include <cry/ecdh.h>
}
#include <cmath>
#include <cstdio>
#include <sys/mman.h>
#include <unistd.h>
using namespace sim;
extern "C" const char *scenario_real_components() { return ""; }

namespace {
bool faulty; unsigned den;
struct R { int ret; unsigned fired; };

// Runs f fault-free on scratch objects first only to learn the number of allocations when asked.
template <class F> R faulted(const char *label, uint32_t n, F f)
{
    Plan p; bool on = faulty && choose(den) == 0 && n;
    if (on) { p = choose_plan(n); evs("  plan", p.str()); }
    arm(p);
    int r = call(label, f);
    unsigned fired = disarm();
    ev("ret", r != 0, fired);
    if (fired) { probe("ops-with-fault"); probe(r ? "fault->error" : "fault->success"); }
    char pn[48]; snprintf(pn, sizeof pn, "op:%s", label); probe(pn);
    return {r, fired};
}
void judge(const char *label, R r, bool legal)
{
    if (r.ret == 0 && !legal) violation("illegal-accepted", "%s returned success for an illegal argument", label);
    if (r.ret != 0 && legal && !r.fired) violation("spurious-error", "%s returned %d without any fault", label, r.ret);
}
long gen_long()
{
    static const long v[] = {0, 1, -1, 255, 256, -255, -256, 65535, LONG_MAX, LONG_MIN, LONG_MIN + 1, LONG_MAX - 1, 0x7fffffffL, 0x80000000L, -0x80000000L, 0xffffffffL};
    if (choose(2)) return v[choose(16)];
    Rng r(subseed()); long x = (long)r.next();
    return x >> r.below(64);
}
bi bi_of(long v) { return bi(v); }

std::string to_radix(bi v, unsigned radix, bool upper)
{
    bool neg = v < 0; if (neg) v = -v;
    std::string s;
    if (v == 0) s = "0";
    while (v != 0) { unsigned d = (unsigned)(v % radix); v /= radix; s += (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); }
    if (neg) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}
// a destination as earlier use may have left it: fresh, stale value, cleared
void stale(cry_mpi *a)
{
    memset(a, 0, sizeof *a);
    switch (choose(4)) {
    case 0: { if (call("cry_mpi_init", [&] { return cry_mpi_init(a); }) != 0) violation("spurious-error", "init failed without fault"); break; }
    case 1: mpi_make(a, gen_val(700, true), choose(8)); break;
    case 2: mpi_make(a, -gen_nonneg(64) - 1, 0); break;
    default: break; // as after clear: no digits at all
    }
}
void done(cry_mpi *a, size_t base)
{
    call("cry_mpi_clear", [&] { cry_mpi_clear(a); });
    if (live_blocks() != base) violation("leak", "%zu block(s) remain after clear", live_blocks() - base);
}
size_t maxb;
size_t bin_len() { if (choose(30) != 29) return choose(100); probe("large-number"); return choose(6) ? 100 + choose(1100) : long_len(); }
// bits of a number for text conversions: the long ones are rare, quadratic in the library
size_t str_bits(size_t lim) { if (choose(40) != 39) return std::min(maxb, lim); probe("large-number"); return 1000 + choose(3200); }

void op_init(size_t base)
{
    cry_mpi *a = uobj<cry_mpi>(); garbage(a, sizeof *a);
    unsigned k = choose(6);
    ev("init-kind", k);
    R r; bi want = 0; bool legal = true; bool err_cleared = true;
    const char *nm = "cry_mpi_init";
    if (k == 0) { r = faulted(nm, 1, [&] { return cry_mpi_init(a); }); }
    else if (k == 1) { size_t n = choose(8) ? choose(20) : choose(8) ? choose(600) : long_len(); nm = "cry_mpi_init_size"; r = faulted(nm, 1, [&] { return cry_mpi_init_size(a, n); });
        if (r.ret == 0 && a->alloc < n) violation("wrong-object", "init_size(%zu) provides %zu digits", n, a->alloc);
        if (r.ret == 0 && n) { a->data[n - 1] = 1; } }
    else if (k == 2) { long v = gen_long(); want = bi_of(v); nm = "cry_mpi_init_int"; note("  value", bi_str(want)); r = faulted(nm, 2, [&] { return cry_mpi_init_int(a, v); }); }
    else if (k == 3) { cry_mpi *s = uobj<cry_mpi>(); want = gen_val(maxb, true); mpi_make(s, want, choose(3)); nm = "cry_mpi_init_copy"; note("  value", bi_str(want));
        r = faulted(nm, 2, [&] { return cry_mpi_init_copy(a, s); }); mpi_expect(s, want, "operand-changed", "source of init_copy"); mpi_drop(s); }
    else if (k == 4) { size_t n = bin_len(); auto v = bytes(n); if (n && choose(3) == 0) for (size_t i = 0; i < n && i < 1 + n / 2; i++) v[i] = 0; want = bi_from_be(v.data(), n); uint8_t *b = ubuf_copy(v, choose(8)); readonly(b, n);
        nm = "cry_mpi_init_bin"; note("  value", bi_str(want)); r = faulted(nm, 2, [&] { return cry_mpi_init_bin(a, b, n); }); readonly_drop(b); }
    else { unsigned radix = 2 + choose(35); want = gen_val(str_bits(300), true); std::string s = to_radix(want, radix, choose(2)); if (choose(4) == 0 && want >= 0) s = "+" + s;
        char *p = (char *)ubuf(s.size() + 1, choose(8)); memcpy(p, s.c_str(), s.size() + 1); readonly(p, s.size() + 1); nm = "cry_mpi_init_str"; note("  string", s);
        r = faulted(nm, 4 + (uint32_t)s.size() / 8, [&] { return cry_mpi_init_str(a, radix, p); }); readonly_drop(p); }
    (void)err_cleared;
    judge(nm, r, legal);
    if (r.ret == 0) {
        mpi_expect(a, want, r.fired ? "wrong-value-after-fault" : "wrong-value", nm);
        done(a, base);
    } else if (live_blocks() != base) violation("leak", "failed %s holds %zu block(s)", nm, live_blocks() - base);
}
void op_load(size_t base)
{
    cry_mpi *a = uobj<cry_mpi>(); stale(a);
    unsigned k = choose(4); R r; bi want; bool legal = true; const char *nm;
    ev("load-kind", k);
    if (k == 0) { long v = gen_long(); want = bi_of(v); nm = "cry_mpi_set_int"; note("  value", bi_str(want)); r = faulted(nm, 1, [&] { return cry_mpi_set_int(a, v); }); }
    else if (k == 1) { size_t n = bin_len(); auto v = bytes(n); if (n && choose(3) == 0) for (size_t i = 0; i < n && i < 1 + n / 2; i++) v[i] = 0; want = bi_from_be(v.data(), n); uint8_t *b = ubuf_copy(v, choose(8)); readonly(b, n);
        nm = "cry_mpi_load_bin"; note("  value", bi_str(want)); r = faulted(nm, 1, [&] { return cry_mpi_load_bin(a, b, n); }); readonly_drop(b); }
    else if (k == 2) { unsigned radix = choose(4) ? 2 + choose(35) : 16; want = gen_val(str_bits(400), true); std::string s = to_radix(want, radix, choose(2));
        if (choose(4) == 0 && want >= 0) s = "+" + s;
        if (choose(4) == 0) { size_t p = s[0] == '-' || s[0] == '+' ? 1 : 0; s.insert(p, std::string(1 + choose(4), '0')); }
        if (radix != 16 && radix < 36 && choose(6) == 0) { // a digit that does not exist in this radix
            char bad = (char)(radix < 10 ? '0' + radix : 'a' + radix - 10); size_t p = (s[0] == '-' || s[0] == '+') + choose((uint32_t)s.size()); if (p > s.size()) p = s.size(); s.insert(p, 1, bad); legal = false; }
        if (choose(20) == 0) { radix = 37 + choose(5); legal = false; }
        char *p = (char *)ubuf(s.size() + 1, choose(8)); memcpy(p, s.c_str(), s.size() + 1); readonly(p, s.size() + 1); nm = "cry_mpi_load_str"; note("  string", s); ev("radix", radix);
        r = faulted(nm, 4 + (uint32_t)s.size() / 6, [&] { return cry_mpi_load_str(a, radix, p); }); readonly_drop(p); }
    else { cry_mpi *s = uobj<cry_mpi>(); want = gen_val(maxb, true); mpi_make(s, want, choose(3)); nm = "cry_mpi_copy"; note("  value", bi_str(want));
        r = faulted(nm, 1, [&] { return cry_mpi_copy(a, s); }); mpi_expect(s, want, "operand-changed", "source of copy"); mpi_drop(s); }
    judge(nm, r, legal);
    if (r.ret == 0) mpi_expect(a, want, r.fired ? "wrong-value-after-fault" : "wrong-value", nm);
    else {
        mpi_val(a, nm, false);
        if (choose(2)) { // still usable
            if (call("cry_mpi_set_int", [&] { return cry_mpi_set_int(a, 77); }) != 0) violation("unusable", "assignment after a failed %s fails", nm);
            mpi_expect(a, 77, "unusable", "assignment after an error");
        }
    }
    done(a, base);
}
void op_store(size_t base)
{
    cry_mpi *a = uobj<cry_mpi>(); unsigned k = choose(4); bi v = gen_val(choose(40) != 39 ? maxb : k == 2 ? 3000 : 10000, true);
    if (k == 3) v = gen_val(66, true);
    mpi_make(a, v, choose(3)); const char *nm; R r;
    ev("store-kind", k); note("  value", bi_str(v));
    if (k == 0 || k == 1) {
        size_t need = (bi_bits(v) + 7) / 8; size_t n; int pad = choose(2);
        switch (choose(4)) { case 0: n = need; break; case 1: n = need + choose(20); break; case 2: n = need ? need - 1 : 0; break; default: n = choose((uint32_t)need + 10); }
        uint8_t *b = ubuf(n, choose(8)); std::vector<uint8_t> old(b, b + n); nm = "cry_mpi_store_bin";
        ev("buf", n, need, pad);
        r = faulted(nm, 1, [&] { return cry_mpi_store_bin(a, b, n, pad); });
        judge(nm, r, n >= need);
        if (r.ret == 0) {
            auto w = bi_to_be(v, pad ? n : 0);
            if (memcmp(b, w.data(), w.size())) violation("wrong-value", "store_bin wrote wrong bytes");
            if (memcmp(b + w.size(), old.data() + w.size(), n - w.size())) violation("write-outside", "store_bin wrote beyond the number");
            // round trip on a second node
            cry_mpi *c = uobj<cry_mpi>(); stale(c); size_t m = w.size();
            if (call("cry_mpi_load_bin", [&] { return cry_mpi_load_bin(c, b, m); }) != 0) violation("spurious-error", "load_bin of stored bytes fails");
            mpi_expect(c, bmp::abs(v), "round-trip", "store_bin/load_bin"); mpi_drop(c);
        }
    } else if (k == 2) {
        unsigned radix = choose(3) ? 2 + choose(15) : 16;
        if (choose(20) == 0) radix = choose(2) ? choose(2) : 17 + choose(20);
        bool legal = radix >= 2 && radix <= 16;
        size_t n = legal ? (size_t)std::ceil(bi_bits(v) / std::log2((double)radix)) + 3 + (radix == 16 ? 2 : 0) : 8;
        char *b = (char *)ubuf(n, choose(8)); nm = "cry_mpi_store_str"; ev("radix", radix);
        uint32_t na = radix == 16 ? 1 : 3 + 8 * (uint32_t)std::min<size_t>(bi_bits(v) / 3 + 1, 60);
        r = faulted(nm, na, [&] { return cry_mpi_store_str(a, radix, b); });
        judge(nm, r, legal);
        if (r.ret == 0) {
            std::string w = to_radix(v, radix, false); std::string g(b, strnlen(b, n));
            for (auto &c : g) if (c >= 'A' && c <= 'Z') c += 32;
            if (g != w) violation(r.fired ? "wrong-value-after-fault" : "wrong-value", "store_str radix %u gives %s, expected %s", radix, g.c_str(), w.c_str());
            cry_mpi *c = uobj<cry_mpi>(); stale(c);
            if (call("cry_mpi_load_str", [&] { return cry_mpi_load_str(c, radix, b); }) != 0) violation("spurious-error", "load_str of a stored string fails");
            mpi_expect(c, v, "round-trip", "store_str/load_str"); mpi_drop(c);
        }
    } else {
        long *o = (long *)ubuf(sizeof(long)); bool fits = v >= bi(LONG_MIN) && v <= bi(LONG_MAX); nm = "cry_mpi_get_int";
        if (choose(3) == 0) { static const long e[] = {0, -1, 1}; v = choose(2) ? bi(LONG_MIN) + e[choose(3)] : bi(LONG_MAX) + e[choose(3)]; mpi_drop(a); mpi_make(a, v, 0); fits = v >= bi(LONG_MIN) && v <= bi(LONG_MAX); note("  value", bi_str(v)); }
        r = faulted(nm, 1, [&] { return cry_mpi_get_int(a, o); });
        judge(nm, r, fits);
        if (r.ret == 0 && bi(*o) != v) violation("wrong-value", "get_int gives %ld for %s", *o, bi_str(v).c_str());
    }
    mpi_expect(a, v, "operand-changed", "stored number");
    done(a, base);
}
void op_list(size_t base)
{
    unsigned n = 1 + choose(8);
    cry_mpi *m[9]; for (unsigned i = 0; i < 9; i++) { m[i] = uobj<cry_mpi>(); garbage(m[i], sizeof(cry_mpi)); }
    ev("list", n);
    R r = faulted("cry_mpi_init_list", n, [&] {
        switch (n) {
        case 1: return cry_mpi_init_list(m[0], (cry_mpi *)NULL);
        case 2: return cry_mpi_init_list(m[0], m[1], (cry_mpi *)NULL);
        case 3: return cry_mpi_init_list(m[0], m[1], m[2], (cry_mpi *)NULL);
        case 4: return cry_mpi_init_list(m[0], m[1], m[2], m[3], (cry_mpi *)NULL);
        case 5: return cry_mpi_init_list(m[0], m[1], m[2], m[3], m[4], (cry_mpi *)NULL);
        case 6: return cry_mpi_init_list(m[0], m[1], m[2], m[3], m[4], m[5], (cry_mpi *)NULL);
        case 7: return cry_mpi_init_list(m[0], m[1], m[2], m[3], m[4], m[5], m[6], (cry_mpi *)NULL);
        default: return cry_mpi_init_list(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], (cry_mpi *)NULL);
        }
    });
    judge("cry_mpi_init_list", r, true);
    if (r.ret != 0) { if (live_blocks() != base) violation("leak", "failed init_list holds %zu block(s)", live_blocks() - base); return; }
    for (unsigned i = 0; i < n; i++) { mpi_expect(m[i], 0, "wrong-value", "list member"); if (choose(2)) call("cry_mpi_set_int", [&] { return cry_mpi_set_int(m[i], -5); }); }
    call("cry_mpi_clear_list", [&] {
        switch (n) {
        case 1: cry_mpi_clear_list(m[0], (cry_mpi *)NULL); break;
        case 2: cry_mpi_clear_list(m[0], m[1], (cry_mpi *)NULL); break;
        case 3: cry_mpi_clear_list(m[0], m[1], m[2], (cry_mpi *)NULL); break;
        case 4: cry_mpi_clear_list(m[0], m[1], m[2], m[3], (cry_mpi *)NULL); break;
        case 5: cry_mpi_clear_list(m[0], m[1], m[2], m[3], m[4], (cry_mpi *)NULL); break;
        case 6: cry_mpi_clear_list(m[0], m[1], m[2], m[3], m[4], m[5], (cry_mpi *)NULL); break;
        case 7: cry_mpi_clear_list(m[0], m[1], m[2], m[3], m[4], m[5], m[6], (cry_mpi *)NULL); break;
        default: cry_mpi_clear_list(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], (cry_mpi *)NULL); break;
        }
    });
    if (live_blocks() != base) violation("leak", "clear_list leaves %zu block(s)", live_blocks() - base);
}
bool point_inf(const cry_ecp *p) { return p->z.used == 0; }
void op_point(size_t base)
{
    unsigned k = choose(3); ev("point-kind", k);
    cry_ecp *p = uobj<cry_ecp>(); garbage(p, sizeof *p); R r;
    if (k == 0) { r = faulted("cry_ecp_init", 6, [&] { return cry_ecp_init(p); }); judge("cry_ecp_init", r, true);
        if (r.ret == 0) { if (!point_inf(p)) violation("wrong-object", "a new point is not the point at infinity"); } }
    else if (k == 1) { long x = gen_long(), y = gen_long(); r = faulted("cry_ecp_init_int", 6, [&] { return cry_ecp_init_int(p, x, y); }); judge("cry_ecp_init_int", r, true);
        if (r.ret == 0) { mpi_expect(&p->x, bi(x), "wrong-value", "x"); mpi_expect(&p->y, bi(y), "wrong-value", "y"); if (point_inf(p)) violation("wrong-object", "affine point marked as infinity"); } }
    else {
        cry_ecp *q = uobj<cry_ecp>(), *s = uobj<cry_ecp>();
        r = faulted("cry_ecp_init_list", 12, [&] { return cry_ecp_init_list(p, q, s, (cry_ecp *)NULL); }); judge("cry_ecp_init_list", r, true);
        if (r.ret == 0) {
            mpi_drop(&q->x); mpi_drop(&q->y); mpi_drop(&q->z); bi x = gen_nonneg(600), y = gen_nonneg(600), z = choose(2);
            mpi_make(&q->x, x); mpi_make(&q->y, y); mpi_make(&q->z, z);
            R c = faulted("cry_ecp_copy", 3, [&] { return cry_ecp_copy(s, q); }); judge("cry_ecp_copy", c, true);
            mpi_expect(&q->x, x, "operand-changed", "copied point"); mpi_expect(&q->y, y, "operand-changed", "copied point");
            if (c.ret == 0) { mpi_expect(&s->x, x, "wrong-value", "copied x"); mpi_expect(&s->y, y, "wrong-value", "copied y"); mpi_expect(&s->z, z, "wrong-value", "copied z"); }
            call("cry_ecp_clear_list", [&] { cry_ecp_clear_list(q, s, (cry_ecp *)NULL); });
        }
    }
    if (r.ret == 0) call("cry_ecp_clear", [&] { cry_ecp_clear(p); });
    if (live_blocks() != base) violation("leak", "%zu block(s) remain", live_blocks() - base);
}
void op_ctx(size_t base)
{
    unsigned k = choose(8); ev("ctx-kind", k); R r; const char *nm = ""; bool legal = true;
    std::function<void()> clr; std::vector<cry_mpi *> mem;
    if (k == 0) { auto c = uobj<cry_rsa_ctx>(); nm = "cry_rsa_init"; r = faulted(nm, 5, [=] { return cry_rsa_init(c, CRY_RSA_PADDING_PKCS_V15); }); clr = [=] { cry_rsa_clear(c); }; mem = {&c->n, &c->e, &c->d, &c->p, &c->q}; }
    else if (k == 1) { auto c = uobj<cry_dsa_ctx>(); nm = "cry_dsa_init"; r = faulted(nm, 5, [=] { return cry_dsa_init(c); }); clr = [=] { cry_dsa_clear(c); }; mem = {&c->p, &c->q, &c->g, &c->pub, &c->pvt}; }
    else if (k == 2) { auto c = uobj<cry_elgamal_ctx>(); nm = "cry_elgamal_init"; r = faulted(nm, 4, [=] { return cry_elgamal_init(c); }); clr = [=] { cry_elgamal_clear(c); }; mem = {&c->p, &c->g, &c->y, &c->d}; }
    else if (k == 3) { auto c = uobj<cry_dh_ctx>(); nm = "cry_dh_init"; r = faulted(nm, 5, [=] { return cry_dh_init(c); }); clr = [=] { cry_dh_clear(c); }; mem = {&c->p, &c->g, &c->e, &c->Y, &c->Z}; }
    else if (k == 4) { auto c = uobj<cry_ecdh_ctx>(); nm = "cry_ecdh_init"; r = faulted(nm, 14, [=] { return cry_ecdh_init(c); }); clr = [=] { cry_ecdh_clear(c); }; mem = {&c->d, &c->ec.p, &c->ec.a, &c->ec.b, &c->ec.n, &c->q.z, &c->z.z}; }
    else if (k == 5) { auto c = uobj<cry_ecdsa_ctx>(); int id = (int)choose(14) - 1; legal = id <= 10; nm = "cry_ecdsa_init"; ev("grp", id); r = faulted(nm, id == -1 ? 11 : 4, [=] { return cry_ecdsa_init(c, id); }); clr = [=] { cry_ecdsa_clear(c); }; mem = {&c->d, &c->q.z};
        if (id == -1) { mem.push_back(&c->grp.p); mem.push_back(&c->grp.n); } }
    else if (k == 6) { auto c = uobj<cry_ecp_grp>(); nm = "cry_ecp_grp_init"; r = faulted(nm, 7, [=] { return cry_ecp_grp_init(c); }); clr = [=] { cry_ecp_grp_clear(c); }; mem = {&c->p, &c->a, &c->b, &c->n, &c->g.z}; }
    else { auto c = uobj<cry_ecp_grp>(); int id = (int)choose(14) - 1; legal = id >= 0 && id <= 10; nm = "cry_ecp_grp_load"; ev("grp", id); r = faulted(nm, 1, [=] { return cry_ecp_grp_load(c, id); }); clr = [=] { cry_ecp_grp_clear(c); };
        if (r.ret == 0) { // a loaded group is a real group: generator on the curve, p odd, sizes sane
            bi p = mpi_val(&c->p, "p", false), a = mpi_val(&c->a, "a", false), b = mpi_val(&c->b, "b", false), x = mpi_val(&c->g.x, "gx", false), y = mpi_val(&c->g.y, "gy", false);
            if (bi_mod(y * y - (x * x * x + a * x + b), p) != 0) violation("wrong-object", "generator of group %d is not on its curve", id); } }
    judge(nm, r, legal);
    if (r.ret != 0) { if (live_blocks() != base) violation("leak", "failed %s holds %zu block(s)", nm, live_blocks() - base); return; }
    for (auto m : mem) mpi_expect(m, 0, "wrong-object", "member of a new context");
    if (choose(2)) for (auto m : mem) { bi v = gen_nonneg(900); mpi_drop(m); mpi_make(m, v); }
    if (choose(4) == 0 && clr) { call("clear", clr); if (live_blocks() != base) violation("leak", "clear after %s leaves %zu block(s)", nm, live_blocks() - base); }
    call("clear", clr);   // clearing twice is harmless as well
    if (live_blocks() != base) violation("leak", "clear after %s leaves %zu block(s)", nm, live_blocks() - base);
}
int capture_begin() { fflush(stdout); int keep = dup(1), m = memfd_create("out", 0); if (keep < 0 || m < 0) abort(); dup2(m, 1); close(m); return keep; }
void capture_end(int keep, std::string &s) { fflush(stdout); off_t n = lseek(1, 0, SEEK_END); s.resize(n > 0 ? n : 0); if (n > 0 && pread(1, &s[0], n, 0) != n) abort(); dup2(keep, 1); close(keep); }
}
extern "C" void scenario()
{
    faulty = choose(4) != 0; den = 1 + choose(3);
    static const size_t mb[] = {70, 200, 640, 2000};
    maxb = mb[choose(4)];
    unsigned n = 2 + choose(20);
    for (unsigned i = 0; i < n; i++) {
        size_t base = live_blocks();
        switch (choose(7)) {
        case 0: op_init(base); break;
        case 1: op_load(base); break;
        case 2: op_store(base); break;
        case 3: op_list(base); break;
        case 4: op_point(base); break;
        case 5: op_ctx(base); break;
        default: { cry_mpi *a = uobj<cry_mpi>(); bi v = gen_val(choose(2) ? 70 : 500, true); mpi_make(a, v); unsigned rx = 2 + choose(15); ev("print", rx); Plan p; if (faulty && choose(2)) p = choose_plan(3);
            std::string g; int keep = capture_begin(); arm(p); call("cry_mpi_print", [&] { cry_mpi_print(a, rx); }); unsigned f = disarm(); capture_end(keep, g); for (auto &c : g) if (c >= 'A' && c <= 'Z') c += 32;
            std::string w = to_radix(v, rx, false) + "\n"; // the complete number or nothing at all
            if (g != w && !(f && g.empty())) violation(f ? "wrong-value-after-fault" : "wrong-value", "cry_mpi_print radix %u prints \"%s\", expected \"%s\"", rx, g.substr(0, g.find(10)).c_str(), w.substr(0, w.size() - 1).c_str());
            mpi_expect(a, v, "operand-changed", "printed number"); done(a, base); }
        }
    }
}

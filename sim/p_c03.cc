// C03: elliptic-curve point arithmetic obeys the group law or reports an error.
//
// A run is a history of add/dbl/mul/copy on a pool of points of one curve (built-in, tiny custom with all its
// points known, or medium custom), in place or not, with allocation failures in the middle of operations.
#include "ec.h"
using namespace sim;
extern "C" const char *scenario_real_components() { return ""; }
namespace {
constexpr int NP = 4;
cry_ecp *P[NP]; Pt M[NP]; bool dirty[NP];
Curve C; cry_ecp_grp *G; bool std_grp; std::vector<Pt> pts; int kind;

Pt any_point()
{
    if (kind == 0) return pts[choose((uint32_t)pts.size())];
    unsigned s = choose(6);
    if (s == 0) return C.g;
    if (s == 1) return Pt();
    if (s == 2) return C.neg(C.g);
    Rng r(subseed()); return C.mul(C.g, bi(1 + r.below(1000000)));
}
void set(int i, const Pt &v) { pt_drop(P[i]); pt_make(P[i], v); M[i] = v; dirty[i] = false; }
bi scalar()
{
    if (kind == 0) switch (choose(4)) { case 0: return choose(20); case 1: return choose(4 * (uint32_t)pts.size() + 2); case 2: { bi n = C.n; return n * choose(5) + choose(3); } default: return gen_nonneg(70); }
    if (kind == 1) return choose(3) ? gen_nonneg(16) : gen_nonneg(bi_bits(C.p) + 8);
    switch (choose(10)) { case 0: return C.n; case 1: return C.n - 1; case 2: return C.n + choose(3); case 3: return gen_nonneg(bi_bits(C.n)); default: return gen_nonneg(20); }
}
}
extern "C" void scenario()
{
    kind = choose(8); kind = kind < 4 ? 0 : kind < 6 ? 1 : 2; // tiny, medium, built-in
    if (kind == 2 && sizeof(cry_mpi_digit) < 4) kind = 1;     // built-in tables are laid out for the configured digit only
    G = uobj<cry_ecp_grp>(); std_grp = kind == 2;
    if (kind == 0) C = tiny_curve(pts, false);
    else if (kind == 1) C = mid_curve(choose(3) ? 32 + choose(100) : 128 + choose(200));
    int id = -1;
    if (kind == 2) {
        id = choose(11); C = std_curve(id);
        if (call("cry_ecp_grp_load", [&] { return cry_ecp_grp_load(G, id); }) != 0) violation("spurious-error", "built-in curve %d cannot be loaded", id);
        grp_expect(G, C, "wrong-curve");
    } else grp_make(G, C, choose(2));
    ev("curve", kind, id + 1); note("p", bi_str(C.p)); note("a", bi_str(C.a)); note("b", bi_str(C.b));
    if (kind == 2) { char pn[32]; snprintf(pn, sizeof pn, "curve:%s", std_curves[id].name); probe(pn); }
    else probe(kind == 0 ? "curve:tiny" : "curve:medium");
    for (int i = 0; i < NP; i++) { P[i] = uobj<cry_ecp>(); memset(P[i], 0, sizeof *P[i]); set(i, any_point()); }
    bool faulty = choose(4) != 0; unsigned nops = 1 + choose(kind == 0 ? 14 : kind == 1 ? 6 : 4);
    for (unsigned o = 0; o < nops; o++) {
        unsigned w[] = {5, 3, 4, 1, 1}; unsigned op = pick_weighted(w, 5);
        int r = choose(NP), a = choose(NP), b = choose(NP);
        if (op == 4 || dirty[a]) { if (dirty[a] || choose(2)) set(a, any_point()); }
        if (dirty[b]) set(b, any_point());
        if (op == 4 && choose(2)) { // make a and b inverse of one another, or equal
            if (a != b) set(b, choose(2) ? C.neg(M[a]) : M[a]);
            op = 0;
        } else if (op == 4) op = 0;
        cry_mpi *k = nullptr; bi kv; static const char *nm[] = {"cry_ecp_add", "cry_ecp_dbl", "cry_ecp_mul", "cry_ecp_copy"};
        Pt want; Pt A = M[a], B = M[b];
        if (op == 2) { kv = scalar(); k = uobj<cry_mpi>(); mpi_make(k, kv, choose(3)); note("k", bi_str(kv)); want = C.mul(A, kv); }
        else if (op == 0) want = C.add(A, B); else if (op == 1) want = C.dbl(A); else want = A;
        if (op == 3 && r == a) continue;
        ev(nm[op], r, a, b); note("A", pt_str(A)); if (op == 0) note("B", pt_str(B));
        auto run = [&](cry_ecp *d, cry_ecp *x, cry_ecp *y) -> int {
            switch (op) { case 0: return cry_ecp_add(d, x, y, G); case 1: return cry_ecp_dbl(d, x, G); case 2: return cry_ecp_mul(d, x, k, G); default: return cry_ecp_copy(d, x); }
        };
        bool inject = faulty && choose(3) != 0; uint32_t n = 0; size_t base;
        if (inject) { // learn the number of allocations on clones; also a fault-free execution that is checked
            cry_ecp *cp[NP]; for (int i = 0; i < NP; i++) { cp[i] = uobj<cry_ecp>(); memset(cp[i], 0, sizeof **cp); }
            auto cl = [&](int i) { if (!cp[i]->x.data) pt_make(cp[i], dirty[i] ? Pt() : M[i]); };
            cl(r); cl(a); cl(b); base = live_blocks();
            arm(Plan()); int ret = call(nm[op], [&] { return run(cp[r], cp[a], cp[b]); }); n = (uint32_t)alloc_calls(); disarm();
            if (ret != 0) violation("spurious-error", "%s returned %d without any fault", nm[op], ret);
            Pt got = pt_val(cp[r], nm[op]); if (!(got == want)) violation("wrong-element", "%s gives %s instead of %s", nm[op], pt_str(got).c_str(), pt_str(want).c_str());
            for (int i = 0; i < NP; i++) pt_drop(cp[i]);
        }
        Plan pl; if (inject && n) { pl = choose_plan(n); evs("  plan", pl.str()); }
        base = live_blocks(); size_t had = (P[r]->x.alloc != 0) + (P[r]->y.alloc != 0) + (P[r]->z.alloc != 0);
        arm(pl); int ret = call(nm[op], [&] { return run(P[r], P[a], P[b]); }); unsigned fired = disarm();
        ev("ret", ret != 0, fired); probe(nm[op]); if (fired) { probe("ops-with-fault"); probe(ret ? "fault->error" : "fault->success"); }
        size_t has = (P[r]->x.alloc != 0) + (P[r]->y.alloc != 0) + (P[r]->z.alloc != 0);
        if (live_blocks() - has != base - had) violation("leak", "%s leaks %ld block(s)", nm[op], (long)((live_blocks() - has) - (base - had)));
        if (ret == 0) {
            Pt got = pt_val(P[r], nm[op]);
            if (!(got == want)) violation(fired ? "wrong-element-after-fault" : "wrong-element", "%s gives %s instead of %s", nm[op], pt_str(got).c_str(), pt_str(want).c_str());
            M[r] = want; dirty[r] = false;
            if (want.inf) probe("result-infinity");
        } else {
            if (!fired) violation("spurious-error", "%s returned %d without any fault", nm[op], ret);
            dirty[r] = true;
        }
        for (int i = 0; i < NP; i++) if (!dirty[i]) { Pt v = pt_val(P[i], "operand", false); if (!(v == M[i])) violation("operand-changed", "%s changed point %d to %s", nm[op], i, pt_str(v).c_str()); }
        if (k) { mpi_expect(k, kv, "operand-changed", "scalar"); mpi_drop(k); }
        grp_expect(G, C, "group-changed");
        if (dirty[r] && choose(2)) { // an error leaves a point that can be assigned again
            Pt v = any_point(); cry_ecp *s = uobj<cry_ecp>(); pt_make(s, v);
            if (call("cry_ecp_copy", [&] { return cry_ecp_copy(P[r], s); }) != 0) violation("unusable", "point cannot be assigned after an error");
            if (!(pt_val(P[r], "copy") == v)) violation("unusable", "assignment after an error gives a wrong point");
            M[r] = v; dirty[r] = false; pt_drop(s);
        }
    }
    for (int i = 0; i < NP; i++) call("cry_ecp_clear", [&] { cry_ecp_clear(P[i]); });
    if (kind == 2) call("cry_ecp_grp_clear", [&] { cry_ecp_grp_clear(G); }); else if (choose(2)) call("cry_ecp_grp_clear", [&] { cry_ecp_grp_clear(G); }); else grp_drop(G);
}

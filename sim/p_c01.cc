// C01: MPI arithmetic is exact or reports an error, under memory pressure too.
//
// A run is a history of operations on a pool of numbers. Every operation is first executed on clones
// without faults (counts allocations, checks the exact result), then - depending on the fault plan - on the
// pool itself with allocation failures. After an error the destination may hold anything that can be
// cleared or assigned; all other operands must be untouched.
#include "model.h"
#include <memory>
using namespace sim;
extern "C" const char *scenario_real_components() { return "src/mpi (all arithmetic), real code; allocator simulated"; }

namespace {
constexpr int NP = 5;
cry_mpi *P[NP]; bi M[NP]; bool dirty[NP];
size_t maxbits;

enum Op { ADD, SUB, ADD_ABS, SUB_ABS, ABS, MUL, MUL_ABS, MUL_BASE, MUL_COMBA, MUL_KARA, MUL_TOOM3, MUL_DIG, SQR, SQR_BASE, SQR_COMBA, SQR_KARA,
    DIV, DIVQ, MOD, DIV_ABS, SHL, SHR, EXP, MOD_EXP, GCD, LCM, INV, SQRT, COPY, CMP, NOPS };
const char *opname[] = {"add", "sub", "add_abs", "sub_abs", "abs", "mul", "mul_abs", "mul_baseline", "mul_comba", "mul_karatsuba", "mul_toom3", "mul_dig", "sqr", "sqr_baseline", "sqr_comba", "sqr_karatsuba",
    "div", "div(q only)", "mod", "div_abs", "shl", "shr", "exp", "mod_exp", "gcd", "lcm", "inv", "sqrt", "copy", "cmp"};
static_assert(sizeof(opname) / sizeof(*opname) == NOPS, "");

void clone(cry_mpi *d, const cry_mpi *s)
{
    *d = *s;
    d->alloc = s->alloc ? s->alloc : 1;
    d->data = (cry_mpi_digit *)xmalloc(d->alloc * sizeof(cry_mpi_digit));
    if (s->used) memcpy(d->data, s->data, s->used * sizeof(cry_mpi_digit));
}
struct Args { int r, r2, a, b, c; unsigned n; cry_mpi_digit dig; bool qnull, rnull; };

// what the operation must do: legal? and the exact results
struct Expect { bool legal = true; bool w1 = false, w2 = false; bi v1, v2; };

void floor_div(const bi &a, const bi &b, bi &q, bi &r) { bmp::divide_qr(a, b, q, r); if (r != 0 && ((r < 0) != (b < 0))) { q -= 1; r += b; } }

Expect expect(Op op, const Args &x)
{
    Expect e; const bi &a = M[x.a], &b = M[x.b], &c = M[x.c];
    e.w1 = true;
    switch (op) {
    case ADD: e.v1 = a + b; break;
    case SUB: e.v1 = a - b; break;
    case ADD_ABS: e.v1 = bmp::abs(a) + bmp::abs(b); break;
    case SUB_ABS: e.v1 = bmp::abs(a) - bmp::abs(b); e.legal = e.v1 >= 0; break;
    case ABS: e.v1 = bmp::abs(a); break;
    case MUL: e.v1 = a * b; break;
    case MUL_ABS: case MUL_BASE: case MUL_COMBA: case MUL_KARA: case MUL_TOOM3: e.v1 = a * b; break; // callers: non-negative
    case MUL_DIG: e.v1 = a * bi(x.dig); break;
    case SQR: case SQR_BASE: case SQR_COMBA: case SQR_KARA: e.v1 = a * a; break;
    case DIV: case DIVQ: case MOD: case DIV_ABS:
        e.legal = b != 0;
        if (e.legal) floor_div(a, b, e.v1, e.v2);
        e.w1 = op != MOD; e.w2 = op == MOD || op == DIV || op == DIV_ABS;
        break;
    case SHL: e.v1 = a << x.n; break;
    case SHR: e.v1 = a < 0 ? bi(-((-a) >> x.n)) : bi(a >> x.n); break;
    case EXP: e.v1 = bmp::pow(a, (unsigned)b); break;
    case MOD_EXP: e.legal = b >= 0 && c > 0; if (e.legal) e.v1 = bi_powm(a, b, c); break;
    case GCD: e.v1 = bi_gcd(a, b); break;
    case LCM: e.v1 = a == 0 || b == 0 ? bi(0) : bi(a / bi_gcd(a, b) * b); break;
    case INV: e.v1 = bi_inv(bi_mod(a, b), b); e.legal = e.v1 != 0 || b == 1; break;
    case SQRT: e.legal = a >= 0; if (e.legal) e.v1 = bmp::sqrt(a); break;
    case COPY: e.v1 = a; break;
    default: e.w1 = false;
    }
    return e;
}
int perform(Op op, const Args &x, cry_mpi **p)
{
    cry_mpi *r = p[x.r], *r2 = p[x.r2]; const cry_mpi *a = p[x.a], *b = p[x.b], *c = p[x.c];
    switch (op) {
    case ADD: return cry_mpi_add(r, a, b);
    case SUB: return cry_mpi_sub(r, a, b);
    case ADD_ABS: return cry_mpi_add_abs(r, a, b);
    case SUB_ABS: return cry_mpi_sub_abs(r, a, b);
    case ABS: return cry_mpi_abs(r, a);
    case MUL: return cry_mpi_mul(r, a, b);
    case MUL_ABS: return cry_mpi_mul_abs(r, a, b);
    case MUL_BASE: return cry_mpi_mul_baseline(r, a, b);
    case MUL_COMBA: return cry_mpi_mul_comba(r, a, b);
    case MUL_KARA: return cry_mpi_mul_karatsuba(r, a, b);
    case MUL_TOOM3: return cry_mpi_mul_toom3(r, a, b);
    case MUL_DIG: return cry_mpi_mul_dig(r, a, x.dig);
    case SQR: return cry_mpi_sqr(r, a);
    case SQR_BASE: return cry_mpi_sqr_baseline(r, a);
    case SQR_COMBA: return cry_mpi_sqr_comba(r, a);
    case SQR_KARA: return cry_mpi_sqr_karatsuba(r, a);
    case DIV: return cry_mpi_div(r, r2, a, b);
    case DIVQ: return cry_mpi_div(r, NULL, a, b);
    case MOD: return cry_mpi_mod(r2, a, b);
    case DIV_ABS: return cry_mpi_div_abs(r, r2, a, b);
    case SHL: return cry_mpi_shl(r, a, x.n);
    case SHR: return cry_mpi_shr(r, a, x.n);
    case EXP: return cry_mpi_exp(r, a, b);
    case MOD_EXP: return cry_mpi_mod_exp(r, a, b, c);
    case GCD: return cry_mpi_gcd(r, a, b);
    case LCM: return cry_mpi_lcm(r, a, b);
    case INV: return cry_mpi_inv(r, a, b);
    case SQRT: return cry_mpi_sqrt(r, a);
    case COPY: return cry_mpi_copy(r, a);
    default: return 0;
    }
}
void set_pool(int i, const bi &v)
{
    if (P[i]->data) mpi_drop(P[i]);
    mpi_make(P[i], v, choose(3) ? choose(10) : 0);
    M[i] = v; dirty[i] = false;
}
// values related to others in the pool: neighbours, multiples, squares
bi related(size_t lim)
{
    bi x = M[choose(NP)], y = M[choose(NP)], d = bi(choose(5)) - 2;
    bi v;
    switch (choose(6)) {
    case 0: v = x + d; break;
    case 1: v = x * y + d; break;
    case 2: v = x * x + d; break;
    case 3: v = -x; break;
    case 4: v = (x + 1) * (x + 1) - 1; break;
    default: { v = x; v <<= choose(2 * CRY_MPI_DIGIT_BITS); v += d; } break;
    }
    if (bi_bits(v) > lim) v = bmp::abs(v) & ((bi(1) << lim) - 1);
    return v;
}
void need(int i, size_t lim, bool nonneg)   // make pool entry fit a domain
{
    if (dirty[i] || bi_bits(M[i]) > lim || (nonneg && M[i] < 0)) {
        bi v;
        if (!dirty[i] && nonneg && bi_bits(M[i]) <= lim) v = -M[i];
        else if (choose(3) == 0) v = related(lim);
        else v = gen_val(lim, !nonneg);
        if (nonneg && v < 0) v = -v;
        set_pool(i, v);
    }
}
void check_after(Op op, const Args &x, cry_mpi **p, int ret, const Expect &e, unsigned faults, const bi *before, bool on_pool)
{
    const char *nm = opname[op];
    char cls[64];
    bool wr[NP] = {};
    bool writes_r = op != MOD && op != CMP, writes_r2 = op == MOD || op == DIV || op == DIV_ABS;
    if (writes_r) wr[x.r] = true;
    if (writes_r2) wr[x.r2] = true;
    if (ret == 0 && !e.legal) { snprintf(cls, sizeof cls, "illegal-accepted:%s", nm); violation(cls, "%s returned success on an operand outside its domain", nm); }
    if (ret != 0 && e.legal && faults == 0) { snprintf(cls, sizeof cls, "spurious-error:%s", nm); violation(cls, "%s returned %d for a legal call without any fault", nm, ret); }
    for (int i = 0; i < NP; i++) {
        if (wr[i]) {
            if (ret == 0) {
                const bi &w = writes_r && x.r == i ? e.v1 : e.v2;
                snprintf(cls, sizeof cls, "wrong-result:%s", nm);
                if (faults) snprintf(cls, sizeof cls, "wrong-result-after-fault:%s", nm);
                bi got = mpi_val(p[i], nm);
                if (got != w) violation(cls, "%s(a=%s, b=%s, c=%s, n=%u) returned 0 with %s, exact %s is %s%s", nm, bi_str(before[x.a]).c_str(), bi_str(before[x.b]).c_str(), bi_str(before[x.c]).c_str(), x.n,
                                        bi_str(got).c_str(), writes_r && x.r == i ? "result" : "remainder", bi_str(w).c_str(), faults ? " (an allocation had failed)" : "");
                if (on_pool) { M[i] = w; dirty[i] = false; }
            } else {
                mpi_val(p[i], nm, false);       // must stay a well-formed object
                if (on_pool) dirty[i] = true;
            }
        } else if (!dirty[i]) {
            snprintf(cls, sizeof cls, "operand-changed:%s", nm);
            mpi_expect(p[i], before[i], cls, "operand after the call");
        }
    }
}
}

extern "C" void scenario()
{
    // swarm: sizes and operation mix differ per run
    const size_t D = CRY_MPI_DIGIT_BITS;
    size_t sizes[] = {130, 4 * D, 10 * D + 3, 40 * D, 70 * D, 140 * D, 330 * D};
    static const unsigned wsz[] = {6, 8, 8, 3, 3, 2, 2};
    unsigned si = pick_weighted(wsz, 7);
    maxbits = sizes[si];
    unsigned family = choose(5);        // 0 all, 1 add/sub/shift, 2 mul/sqr, 3 div, 4 modular
    for (int i = 0; i < NP; i++) { P[i] = uobj<cry_mpi>(); memset(P[i], 0, sizeof(cry_mpi)); set_pool(i, gen_val(maxbits, true)); }
    unsigned nops = 1 + choose(si >= 5 ? 5 : si >= 3 ? 10 : 24);
    bool faulty_run = choose(4) != 0;
    unsigned fault_den = 1 + choose(4);
    for (unsigned k = 0; k < nops; k++) {
        Op op;
        switch (family) {
        case 1: { static const Op o[] = {ADD, SUB, ADD_ABS, SUB_ABS, ABS, SHL, SHR, COPY, CMP}; op = o[choose(9)]; break; }
        case 2: { static const Op o[] = {MUL, MUL_ABS, MUL_BASE, MUL_COMBA, MUL_KARA, MUL_TOOM3, MUL_DIG, SQR, SQR_BASE, SQR_COMBA, SQR_KARA, SUB}; op = o[choose(12)]; break; }
        case 3: { static const Op o[] = {DIV, DIVQ, MOD, DIV_ABS, MUL, SHL, ADD}; op = o[choose(7)]; break; }
        case 4: { static const Op o[] = {EXP, MOD_EXP, GCD, LCM, INV, SQRT, MUL, MOD}; op = o[choose(8)]; break; }
        default: op = (Op)choose(NOPS);
        }
        Args x{}; x.a = choose(NP); x.b = choose(NP); x.c = choose(NP); x.r = choose(NP); x.r2 = choose(NP);
        x.n = 0; x.dig = 0;
        if (chance(1, 6)) { int i = choose(NP); bi v = choose(2) ? related(maxbits) : gen_val(maxbits, true); set_pool(i, v); }
        size_t lim = maxbits;
        switch (op) {   // operand domains
        case ADD_ABS: case ABS: case MUL: case MUL_DIG: case SUB: case ADD: need(x.a, lim, false); need(x.b, lim, false); if (op == MUL_DIG) { need(x.a, lim, false); Rng r(subseed()); x.dig = r.below(3) ? (cry_mpi_digit)r.next() : (cry_mpi_digit)(1 + r.below(3)); if (!x.dig) x.dig = 1; } break;
        case SUB_ABS: need(x.a, lim, false); need(x.b, lim, false); break;
        case MUL_ABS: case MUL_BASE: case MUL_COMBA: case MUL_KARA: case MUL_TOOM3: need(x.a, lim, true); need(x.b, lim, true);
            if (op == MUL_KARA || op == MUL_TOOM3) { // splitting needs a few digits on both sides
                unsigned md = op == MUL_KARA ? 2 : 3;
                for (int i : {x.a, x.b}) if (M[i] != 0 && bi_bits(M[i]) <= md * D) set_pool(i, M[i] + (bi(1 + choose(100)) << (md * D + choose(100))));
            }
            break;
        case SQR: case SQR_BASE: case SQR_COMBA: case SQR_KARA: need(x.a, lim, false);
            if (op == SQR_KARA && M[x.a] != 0 && bi_bits(M[x.a]) <= 2 * D) set_pool(x.a, bmp::abs(M[x.a]) + (bi(1) << (2 * D + choose(60))));
            break;
        case DIV: case DIVQ: case MOD: {
            need(x.a, lim, false); need(x.b, lim, true);
            if (x.r == x.r2 && op == DIV) x.r2 = (x.r + 1) % NP;
            if (x.a == x.b) need(x.a, lim, true);
            break; }
        case DIV_ABS: need(x.a, lim, true); need(x.b, lim, true); if (x.r == x.r2) x.r2 = (x.r + 1) % NP; break;
        case SHL: case SHR: case COPY: case CMP: need(x.a, lim, false); need(x.b, lim, false); x.n = choose(2) ? choose((uint32_t)maxbits + 70) : choose(4) * D + choose(3); break;
        case EXP: need(x.a, 96, false); need(x.b, 5, true); break;
        case MOD_EXP: { size_t l = std::min<size_t>(lim, D == 8 ? 200 : 600); 
            need(x.a, l, false); need(x.b, choose(4) ? 40 : l, false); need(x.c, l, false);
            if (choose(12) == 11) set_pool(choose(2) ? x.b : x.c, choose(2));
            if (bi_bits(M[x.b]) > 64 && bi_bits(M[x.c]) == 0) set_pool(x.c, 77);
            break; }
        case GCD: case LCM: { size_t l = std::min<size_t>(lim, D == 8 ? 400 : 1400); need(x.a, l, op == LCM); need(x.b, l, op == LCM); if (op == LCM && M[x.a] == 0 && M[x.b] == 0) set_pool(x.b, 3); break; }
        case INV: { size_t l = std::min<size_t>(lim, D == 8 ? 400 : 1400); need(x.a, l, false); need(x.b, l, true); if (M[x.b] < 2 && choose(3)) set_pool(x.b, M[x.b] + 2 + choose(500)); if (M[x.b] == 0) set_pool(x.b, 1);
            if (choose(3)) { bi m = M[x.b]; if (!bit_test(m, 0)) set_pool(x.b, m + 1); }   // odd moduli are invertible more often
            break; }
        case SQRT: { size_t l = std::min<size_t>(lim, D == 8 ? 500 : 3000); need(x.a, l, false); if (choose(4)) need(x.a, l, true); break; }
        default: break;
        }
        // a destination that failed earlier is reused as it is (it must be assignable); give others their values
        bool rd[NP] = {}; rd[x.a] = rd[x.b] = rd[x.c] = true;
        for (int i = 0; i < NP; i++) if (rd[i] && dirty[i]) set_pool(i, gen_val(std::min(lim, (size_t)200), false));
        if (op == SUB_ABS && choose(3) && bmp::abs(M[x.a]) < bmp::abs(M[x.b])) std::swap(x.a, x.b);
        // with 1-byte digits the three-digit column accumulator of comba holds 255 products only
        if (D == 8 && (op == MUL_COMBA || op == SQR_COMBA) && bi_bits(M[x.a]) > 250 * D && (op == SQR_COMBA || bi_bits(M[x.b]) > 250 * D)) continue;
        if (op == INV && M[x.b] < 1) continue;
        if (op == LCM && M[x.a] == 0 && M[x.b] == 0) continue;
        if (op == EXP && (M[x.b] < 0 || M[x.b] > 31)) continue;
        ev(opname[op], x.r * 10 + x.r2, x.a * 100 + x.b * 10 + x.c, x.n);
        if (verbose) { note("  a", bi_str(M[x.a])); note("  b", bi_str(M[x.b])); if (op == MOD_EXP) note("  c", bi_str(M[x.c])); }


        if (op == CMP) {
            int s = call("cry_mpi_cmp", [&] { return cry_mpi_cmp(P[x.a], P[x.b]); });
            int t = call("cry_mpi_cmp_abs", [&] { return cry_mpi_cmp_abs(P[x.a], P[x.b]); });
            size_t nb = call("cry_mpi_count_bits", [&] { return cry_mpi_count_bits(P[x.a]); });
            auto sg = [](int v) { return v < 0 ? -1 : v > 0; };
            if (sg(s) != M[x.a].compare(M[x.b]) && sg(s) != sg(M[x.a].compare(M[x.b]))) violation("wrong-result:cmp", "cmp(%s, %s) = %d", bi_str(M[x.a]).c_str(), bi_str(M[x.b]).c_str(), s);
            bi aa = bmp::abs(M[x.a]), bb = bmp::abs(M[x.b]);
            if (sg(t) != sg(aa.compare(bb))) violation("wrong-result:cmp_abs", "cmp_abs(%s, %s) = %d", bi_str(aa).c_str(), bi_str(bb).c_str(), t);
            if (nb != bi_bits(aa)) violation("wrong-result:count_bits", "count_bits(%s) = %zu", bi_str(aa).c_str(), nb);
            const cry_mpi *n = P[x.a]; const bi &v = M[x.a];
            if (cry_mpi_count_bytes(n) != (bi_bits(aa) + 7) / 8) violation("wrong-result:count_bytes", "count_bytes(%s) = %zu", bi_str(aa).c_str(), (size_t)cry_mpi_count_bytes(n));
            if (!!cry_mpi_is_zero(n) != (v == 0) || !!cry_mpi_is_neg(n) != (v < 0) || !!cry_mpi_is_pos(n) != (v >= 0) || !!cry_mpi_is_odd(n) != bit_test(aa, 0) || !!cry_mpi_is_even(n) == bit_test(aa, 0)) violation("wrong-result:predicate", "a predicate of %s is wrong", bi_str(v).c_str());
            if (choose(4) == 3 && x.a != x.b) { cry_mpi_swap(P[x.a], P[x.b]); std::swap(M[x.a], M[x.b]); mpi_expect(P[x.a], M[x.a], "wrong-result:swap", "swapped"); mpi_expect(P[x.b], M[x.b], "wrong-result:swap", "swapped"); }
            continue;
        }
        Expect e = expect(op, x);
        if (e.legal && e.w1 && bi_bits(e.v1) > 2 * 330 * D + 200) continue;
        bi before[NP]; for (int i = 0; i < NP; i++) before[i] = M[i];

        bool fault = faulty_run && choose(fault_den) == 0;
        uint32_t n0 = 0;
        if (fault) {
            // fault-free execution on clones: how many allocations are there to fail?
            cry_mpi *C[NP];
            for (int i = 0; i < NP; i++) { C[i] = uobj<cry_mpi>(); clone(C[i], P[i]); }
            size_t mark = live_mark();
            arm(Plan());
            int ret = call(opname[op], [&] { return perform(op, x, C); });
            n0 = (uint32_t)alloc_calls(); disarm();
            check_after(op, x, C, ret, e, 0, before, false);
            for (int i = 0; i < NP; i++) call("cry_mpi_clear", [&] { cry_mpi_clear(C[i]); });
            size_t l = leaks_since(mark);
            if (l) violation("leak", "%zu block(s) leaked by %s", l, opname[op]);
        }
        Plan p;
        if (fault && n0) p = choose_plan(n0);
        if (fault && n0) evs("  plan", p.str());
        size_t live0 = live_blocks();
        (void)live0;
        arm(p);
        int ret = call(opname[op], [&] { return perform(op, x, P); });
        unsigned fired = disarm();
        ev("ret", ret != 0, fired);
        if (fired) { probe("ops-with-fault"); probe(ret ? "fault->error" : "fault->exact-result"); }
        char pn[48]; snprintf(pn, sizeof pn, "op:%s", opname[op]); probe(pn);
        check_after(op, x, P, ret, e, fired, before, true);
        // leak check: at most one block per pool entry may be live
        size_t own = 0; for (int i = 0; i < NP; i++) if (P[i]->data && P[i]->alloc) own++;
        if (live_blocks() != own) violation("leak", "%s left %zu live blocks, the %d numbers own %zu", opname[op], live_blocks(), NP, own);
        if (ret != 0 && fired && choose(2)) {   // retry after the fault is gone: must now succeed
            bool ok = true;
            bool d2[NP] = {}; d2[x.r] = true; d2[x.r2] = true;
            for (int i : {x.a, x.b, x.c}) if (dirty[i]) { M[i] = before[i]; set_pool(i, before[i]); }
            (void)ok;
            int rr = call(opname[op], [&] { return perform(op, x, P); });
            probe("retry-after-fault");
            check_after(op, x, P, rr, e, 0, before, true);
        }
    }
    for (int i = 0; i < NP; i++) {
        call("cry_mpi_clear", [&] { cry_mpi_clear(P[i]); });
        if (P[i]->data && P[i]->alloc) violation("clear", "clear left digits behind");
    }
}

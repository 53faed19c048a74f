// C11: random numbers, primes and keys under every random stream: honest, constant, repeating, sparse, scripted, failing.
#include "pk.h"
#include "twice.h"
using namespace sim;
extern "C" const char *scenario_real_components() { return ""; }
namespace {
const bool small = sizeof(cry_mpi_digit) == 1;
const char *kind_name(const PrngCfg &c) { static const char *n[] = {"random", "zero", "ones", "repeat", "sparse", "script", "lowbits"}; return n[c.kind]; }
PrngCfg any_stream()
{
    PrngCfg c; c.seed = subseed(); static const PrngCfg::Kind k[] = {PrngCfg::RANDOM, PrngCfg::ZERO, PrngCfg::ONES, PrngCfg::REPEAT, PrngCfg::SPARSE, PrngCfg::LOWBITS, PrngCfg::SCRIPT};
    unsigned w[] = {5, 2, 2, 2, 2, 2, 2}; c.kind = k[pick_weighted(w, 7)];
    if (c.kind == PrngCfg::SCRIPT) { size_t n = 1 + choose(60); c.script = bytes(n); }
    probe(kind_name(c)); evs("stream", kind_name(c)); return c;
}
void stale(cry_mpi *a) { memset(a, 0, sizeof *a); mpi_make(a, gen_val(small ? 100 : 300, true), choose(6)); }
void reset(cry_mpi *a) { mpi_drop(a); Rng g(5); mpi_make(a, gen_bits(90, g), 1); }
void no_faults(const R &r, const char *op) { if (r.ret == 0 && r.prng) violation("random-source-failure-ignored", "%s reports success although the random source failed", op); }

size_t many_bits() { return (choose(2) ? 32 << choose(9) : 1024 << choose(4)) - 20 + choose(40); }
void do_rand()
{
    size_t bits = choose(4) ? choose(small ? 80 : 200) : CRY_MPI_DIGIT_BITS * (1 + choose(6)) + choose(3) - 1; if (choose(20) == 19) { bits = many_bits(); probe("large-number"); } cry_mpi *a = uobj<cry_mpi>(); stale(a); PrngCfg st = any_stream(); ev("rand", bits);
    auto judge = [&](int ret, unsigned f) {
        if (ret != 0) { if (!f) violation("spurious-error", "cry_mpi_rand(%zu) returned %d without any fault", bits, ret); mpi_val(a, "after an error", false); return; }
        bi v = mpi_val(a, "rand"); if (v < 0 || bi_bits(v) > bits) violation("bad-size", "cry_mpi_rand(%zu) gave %s", bits, bi_str(v).c_str());
    };
    between = [&] { reset(a); };
    R r = twice("cry_mpi_rand", st, [&] { return cry_mpi_rand(a, bits); }, [&](int x) { judge(x, 0); }); judge(r.ret, r.fired + r.prng); no_faults(r, "cry_mpi_rand");
    if (r.ret != 0) { probe("rand-error"); prng_set(PrngCfg()); if (call("cry_mpi_rand", [&] { return cry_mpi_rand(a, bits); }) != 0) violation("spurious-error", "cry_mpi_rand does not recover from an earlier failure"); judge(0, 0); }
    call("cry_mpi_clear", [&] { cry_mpi_clear(a); });
}
// every bit below the top one follows the stream
void do_spread(bool ranged)
{
    size_t bits = 24 + choose(small ? 60 : choose(4) ? 180 : 4000); cry_mpi *a = uobj<cry_mpi>(), *m = uobj<cry_mpi>(); memset(a, 0, sizeof *a); mpi_make(a, 0, 0); bi max = (bi(1) << bits) - 1 - choose(1000); mpi_make(m, max, 0);
    PrngCfg st; st.seed = subseed(); prng_set(st); bi o = 0, n = (bi(1) << bits) - 1; ev("spread", bits, ranged); size_t top = ranged ? bits - 8 : bits - 1;
    for (unsigned i = 0; i < 72; i++) { if (call("cry_mpi_rand", [&] { return ranged ? cry_mpi_rand_range(a, m) : cry_mpi_rand(a, bits); }) != 0) violation("spurious-error", "error without any fault"); bi v = mpi_val(a, "rand"); o |= v; n &= v; if (v >= (ranged ? max : bi(1) << bits)) violation("out-of-range", "%s", bi_str(v).c_str()); }
    for (size_t b = 0; b < top; b++) if (!bit_test(o, b) || bit_test(n, b)) violation("constant-bits", "bit %zu of 72 %s %zu-bit random numbers is always the same although the random source delivers independent bytes", b, ranged ? "ranged" : "plain", bits);
    mpi_drop(a); mpi_drop(m); probe("spread");
}
void do_range()
{
    bi max; do { max = gen_nonneg(small ? 90 : 300); if (choose(4) == 0) max = bi(1) << choose(small ? 80 : 200); if (choose(20) == 19) { max = gen_nonneg(many_bits()); probe("large-number"); } } while (max < 1 && (max = 1, false));
    cry_mpi *a = uobj<cry_mpi>(), *m = uobj<cry_mpi>(); stale(a); mpi_make(m, max, choose(3)); PrngCfg st = any_stream(); note("max", bi_str(max));
    auto judge = [&](int ret, unsigned f) {
        mpi_expect(m, max, "operand-changed", "max");
        if (ret != 0) { if (!f) violation("spurious-error", "cry_mpi_rand_range(%s) returned %d without any fault", bi_str(max).c_str(), ret); return; }
        bi v = mpi_val(a, "rand_range"); if (v < 0 || v >= max) violation("out-of-range", "cry_mpi_rand_range(%s) gave %s", bi_str(max).c_str(), bi_str(v).c_str());
    };
    between = [&] { reset(a); };
    R r = twice("cry_mpi_rand_range", st, [&] { return cry_mpi_rand_range(a, m); }, [&](int x) { judge(x, 0); }); judge(r.ret, r.fired + r.prng); no_faults(r, "cry_mpi_rand_range");
    call("cry_mpi_clear", [&] { cry_mpi_clear(a); }); mpi_drop(m);
}
bi tough(Rng &g) // r(2r-1): about a fifth of all bases are liars, and no small factor
{
    for (;;) { bi r = gen_prime(11 + g.below(small ? 8 : 24), g); if (r > 1009 && bi_is_prime(2 * r - 1)) return r * (2 * r - 1); }
}
void do_isprime()
{
    Rng g(subseed()); bi p; unsigned kind = choose(10);
    static const char *special[] = {"7ff", "231", "451", "6c1", "afb1", "15c5", "7ff", "10f4447", "4a3bd", "5bf8ff79", "77d3e9b1", "ffffffff", "100000001", "fffffffb", "3fffffffffffffff", "1fffffffffffffff"};
    switch (kind) {
    case 0: p = choose(40); break;
    case 1: p = choose(70000); break;
    case 2: case 3: case 4: p = gen_prime(2 + choose(small ? 60 : 150), g); break;
    case 5: p = -gen_prime(2 + choose(30), g); break;
    case 6: p = gen_prime(2 + choose(30), g) * gen_prime(2 + choose(30), g); break;
    case 7: p = bi_hex(special[choose(16)]); break;
    case 8: p = gen_nonneg(small ? 60 : 140); break;
    default: p = tough(g);
    }
    bool prime = bi_is_prime(p); cry_mpi *a = uobj<cry_mpi>(); mpi_make(a, p, choose(3)); note("p", bi_str(p)); PrngCfg st = any_stream(); ev("is_prime", prime); probe(prime ? "is_prime:prime" : "is_prime:composite");
    auto judge = [&](int ret, unsigned f) {
        mpi_expect(a, p, "operand-changed", "p");
        if (ret < 0) { if (!f) violation("spurious-error", "cry_mpi_is_prime(%s) returned %d without any fault", bi_str(p).c_str(), ret); return; }
        if (prime && ret == 0) violation("prime-rejected", "cry_mpi_is_prime(%s) says composite, %s stream", bi_str(p).c_str(), kind_name(st));
        if (!prime && ret != 0 && p < 1018081) violation("composite-accepted", "cry_mpi_is_prime(%s) says prime: below 1009^2 trial division decides", bi_str(p).c_str());
        if (!prime && ret != 0 && !bit_test(bmp::abs(p), 0)) violation("composite-accepted", "cry_mpi_is_prime(%s) says prime: it is even", bi_str(p).c_str());
    };
    int free_run = 0; R r = twice("cry_mpi_is_prime", st, [&] { return cry_mpi_is_prime(a); }, [&](int x) { free_run = x; judge(x, 0); }); judge(r.ret, r.fired + r.prng);
    if (!prime && free_run == 0 && r.ret > 0) violation("composite-accepted", "cry_mpi_is_prime(%s) says prime when an allocation fails; with the same random stream and enough memory it finds a witness", bi_str(p).c_str());
    if (r.prng && r.ret >= 0) violation("random-source-failure-ignored", "cry_mpi_is_prime gives an answer although the random source failed");
    if (!prime && p > 3) { // independent streams: a false positive has probability 4^-5 per call at most
        unsigned trials = kind == 9 ? 60 : 6, pass = 0, limit = kind == 9 ? 7 : 6; PrngCfg h;
        for (unsigned i = 0; i < trials; i++) { h.seed = subseed(); prng_set(h); int x = call("cry_mpi_is_prime", [&] { return cry_mpi_is_prime(a); }); if (x < 0) violation("spurious-error", "cry_mpi_is_prime(%s) returned %d without any fault", bi_str(p).c_str(), x); pass += x != 0; }
        if (pass >= limit) violation("composite-accepted", "cry_mpi_is_prime(%s) says prime in %u of %u independent tests", bi_str(p).c_str(), pass, trials);
        probe("composite-trials", trials); if (kind == 9) probe("tough-composite");
    }
    mpi_drop(a);
}
void do_prime()
{
    size_t bits = 8 * (1 + choose(small ? 4 : choose(8) ? 6 : 16)); if (choose(12) == 11) bits = choose(130); cry_mpi *a = uobj<cry_mpi>(); stale(a); PrngCfg st = choose(2) ? any_stream() : PrngCfg(); if (st.seed == 1) st.seed = subseed();
    bool given = st.kind == PrngCfg::RANDOM || st.kind == PrngCfg::SCRIPT ? choose(3) == 2 : bits > 16 || choose(3); unsigned n0 = given ? choose(80) : 0, n = n0; bool odd = bits % 8 || !bits; ev("prime", bits, given, n0);
    auto judge = [&](int ret, unsigned f) {
        if (given && n > n0) violation("too-many-iterations", "cry_mpi_prime made %u attempts, %u were allowed", n, n0);
        if (ret != 0) { if (!f && !odd && !given && st.kind == PrngCfg::RANDOM) violation("spurious-error", "cry_mpi_prime(%zu) returned %d without any fault", bits, ret); return; }
        bi v = mpi_val(a, "prime"); if (v < 0 || bi_bits(v) != bits || !bit_test(v, 0)) violation("bad-size", "cry_mpi_prime(%zu) gave %s", bits, bi_str(v).c_str());
        if ((st.kind == PrngCfg::RANDOM || v < 1018081) && !bi_maybe_prime(v)) violation("composite-accepted", "cry_mpi_prime(%zu) gave the composite %s", bits, bi_str(v).c_str());
        probe("prime-found");
    };
    between = [&] { reset(a); n = n0; };
    R r = twice("cry_mpi_prime", st, [&] { return cry_mpi_prime(a, bits, given ? &n : nullptr); }, [&](int x) { judge(x, 0); }); judge(r.ret, r.fired + r.prng); no_faults(r, "cry_mpi_prime");
    call("cry_mpi_clear", [&] { cry_mpi_clear(a); });
}
void do_keygen()
{
    unsigned kind = choose(40); Rng g(subseed());
    if (kind < 20) { // ECDSA
        std::vector<Pt> pts; cry_ecdsa_ctx *c = uobj<cry_ecdsa_ctx>(); Curve cv; if (choose(2)) cv = ordered_curve(choose(14)); else cv = tiny_curve(pts, true, 5); PrngCfg st = any_stream();
        grp_make(&c->grp, cv, choose(2)); mpi_make(&c->d, 0, 0); pt_make(&c->q, Pt());
        auto judge = [&](int ret, unsigned f) { if (ret != 0) { if (!f) violation("spurious-error", "cry_ecdsa_keygen returned %d without any fault", ret); return; } judge_ecdsa_key(c, cv, f, st.kind == PrngCfg::RANDOM && st.script.empty()); };
        between = [&] { mpi_drop(&c->d); mpi_make(&c->d, 0, 0); pt_drop(&c->q); pt_make(&c->q, Pt()); };
        R r = twice("cry_ecdsa_keygen", st, [&] { return cry_ecdsa_keygen(c); }, [&](int x) { judge(x, 0); }); judge(r.ret, r.fired + r.prng); no_faults(r, "cry_ecdsa_keygen");
        call("cry_ecdsa_clear", [&] { cry_ecdsa_clear(c); });
    } else if (kind >= 36 && !small) { // DSA, from a stream that leads to primes at once
        unsigned si = choose(8) < 7 ? choose(6) : choose(8) < 7 ? 6 + choose(2) : 8 + choose(2); PrngCfg st; st.seed = subseed(); dsa_script(st, si, g); if (choose(4) == 0) st.script.resize(20 + 100 + 64 + 8 * dsa_l[si]); cry_dsa_ctx *c = uobj<cry_dsa_ctx>(); if (call("cry_dsa_init", [&] { return cry_dsa_init(c); }) != 0) violation("spurious-error", "dsa init"); ev("dsa keygen", si); probe("dsa-keygen"); if (si >= 8) heavy = true;
        auto judge = [&](int ret, unsigned f) { if (ret != 0) { if (!f) violation("spurious-error", "cry_dsa_keygen returned %d without any fault", ret); return; } judge_dsa_key(c, dsa_l[si], f); };
        between = [&] { cry_dsa_clear(c); garbage(c, sizeof *c); if (cry_dsa_init(c) != 0) violation("spurious-error", "dsa init"); };
        R r = twice("cry_dsa_keygen", st, [&] { return cry_dsa_keygen(c, dsa_l[si]); }, [&](int x) { judge(x, 0); }); judge(r.ret, r.fired + r.prng); no_faults(r, "cry_dsa_keygen");
        call("cry_dsa_clear", [&] { cry_dsa_clear(c); });
    } else { // RSA
        cry_rsa_ctx *c = uobj<cry_rsa_ctx>(); if (call("cry_rsa_init", [&] { return cry_rsa_init(c, 1); }) != 0) violation("spurious-error", "rsa init");
        PrngCfg st; st.seed = subseed(); if (choose(4) == 0) st = any_stream(); bool adv = st.kind != PrngCfg::RANDOM && st.kind != PrngCfg::SCRIPT;
        size_t bits = 16 * (1 + (adv ? 0 : choose(small ? 3 : 7))); static const long es[] = {0, 3, 17, 65537, 5, 257}; long e = es[choose(6)]; if (bits == 16 && (e > 255 || e == 0)) e = 17; ev("rsa keygen", bits, (uint64_t)e); if (adv) heavy = true;
        if (adv && choose(6)) { st.kind = PrngCfg::SPARSE; adv = false; } // constant streams make p == q: ten thousand rounds until the search gives up
        auto judge = [&](int ret, unsigned f) { if (ret != 0) { if (!f && st.kind == PrngCfg::RANDOM && bits > 32) violation("spurious-error", "cry_rsa_keygen(%zu, %ld) returned %d without any fault", bits, e, ret); return; } judge_rsa_key(c, bits, e, f, st.kind == PrngCfg::RANDOM); };
        between = [&] { cry_rsa_clear(c); garbage(c, sizeof *c); if (cry_rsa_init(c, 1) != 0) violation("spurious-error", "rsa init"); };
        R r = twice("cry_rsa_keygen", st, [&] { return cry_rsa_keygen(c, bits, e); }, [&](int x) { judge(x, 0); }, 6000000000ull); judge(r.ret, r.fired + r.prng); no_faults(r, "cry_rsa_keygen");
        if (adv) probe("rsa-keygen-constant-stream");
        call("cry_rsa_clear", [&] { cry_rsa_clear(c); });
    }
}
}
extern "C" void scenario()
{
    faulty = choose(3) != 0; unsigned n = 1 + choose(5); uint64_t t = 0;
    for (unsigned i = 0; i < n; i++) {
        unsigned w[] = {6, 6, 8, 4, 2, 1}; size_t live0 = live_blocks(); between = nullptr; heavy = false;
        switch (pick_weighted(w, 6)) { case 0: do_rand(); break; case 1: do_range(); break; case 2: do_isprime(); break; case 3: do_prime(); break; case 4: do_keygen(); break; default: do_spread(choose(2)); }
        if (live_blocks() != live0) violation("leak", "%ld block(s) left behind", (long)live_blocks() - (long)live0);
        t += prng_bytes();
    }
    note_time(t);
}

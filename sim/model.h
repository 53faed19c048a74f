// Conversions between cry_mpi and an independent big integer (boost cpp_int), value generators and the
// checks that every MPI result has to pass.
#pragma once
#include "sim.h"
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
extern "C" {
#include <cry/mpi.h>
#include <cry/ecp.h>
}
#include <boost/multiprecision/cpp_int.hpp>
#include <stdlib.h>

using bi = boost::multiprecision::cpp_int;
using boost::multiprecision::msb;
using boost::multiprecision::bit_test;
using boost::multiprecision::powm;
namespace bmp = boost::multiprecision;

static inline size_t bi_bits(const bi &v) { return v == 0 ? 0 : (size_t)msb(bmp::abs(v)) + 1; }

static inline bi bi_from_le(const uint8_t *p, size_t n)
{
    bi v;
    if (n) bmp::import_bits(v, p, p + n, 8, false);
    return v;
}
static inline bi bi_from_be(const uint8_t *p, size_t n)
{
    bi v;
    if (n) bmp::import_bits(v, p, p + n, 8, true);
    return v;
}
static inline std::vector<uint8_t> bi_to_be(const bi &v, size_t pad = 0)
{
    std::vector<uint8_t> o;
    bi a = bmp::abs(v);
    if (a != 0) bmp::export_bits(a, std::back_inserter(o), 8, true);
    if (o.size() < pad) o.insert(o.begin(), pad - o.size(), 0);
    return o;
}
static inline std::string bi_str(const bi &v)
{
    std::string s = bi(bmp::abs(v)).str(0, std::ios_base::hex);
    if (v < 0) s = "-" + s;
    if (s.size() > 300) s = s.substr(0, 140) + "..." + s.substr(s.size() - 140) + "(" + std::to_string(bi_bits(v)) + " bits)";
    return s;
}
static inline bi bi_mod(const bi &a, const bi &m) { bi r = a % m; if (r < 0) r += m; return r; }
static inline bi bi_gcd(bi a, bi b) { a = bmp::abs(a); b = bmp::abs(b); while (b != 0) { bi t = a % b; a = b; b = t; } return a; }
static inline bi bi_inv(const bi &a, const bi &m) // 0 if none
{
    bi r0 = bi_mod(a, m), r1 = m, s0 = 1, s1 = 0;
    while (r1 != 0) { bi q = r0 / r1, t = r0 - q * r1; r0 = r1; r1 = t; t = s0 - q * s1; s0 = s1; s1 = t; }
    if (r0 != 1) return 0;
    return bi_mod(s0, m);
}
static inline bi bi_powm(const bi &b, const bi &e, const bi &m) { return m == 1 ? bi(0) : bi(powm(bi_mod(b, m), e, m)); }
static inline bool bi_is_prime(const bi &n) // deterministic Miller-Rabin for < 3.3e24, 24 fixed bases else
{
    static const unsigned sp[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89};
    if (n < 2) return false;
    for (unsigned p : sp) { if (n == p) return true; if (n % p == 0) return false; }
    bi d = n - 1; unsigned s = 0;
    while (!bit_test(d, 0)) { d >>= 1; s++; }
    for (unsigned p : sp) {
        bi x = powm(bi(p), d, n);
        if (x == 1 || x == n - 1) continue;
        bool ok = false;
        for (unsigned i = 1; i < s && !ok; i++) { x = x * x % n; if (x == n - 1) ok = true; }
        if (!ok) return false;
    }
    return true;
}

// prime, or a composite that has so many Miller-Rabin liars that passing a few random rounds is bad luck, not a bug
static inline bool bi_maybe_prime(const bi &n)
{
    if (bi_is_prime(n)) return true;
    if (n < 1018081 || !bit_test(n, 0)) return false; // below 1009^2, or even
    bi d = n - 1; unsigned s = 0; while (!bit_test(d, 0)) { d >>= 1; s++; }
    sim::Rng g(4711); unsigned liars = 0;
    for (unsigned i = 0; i < 600; i++) {
        bi a = 1 + bi(((bi(g.next()) << 64) | bi(g.next()))) % (n - 1), x = powm(a, d, n); bool ok = x == 1 || x == n - 1;
        for (unsigned j = 1; j < s && !ok; j++) { x = x * x % n; if (x == n - 1) ok = true; }
        liars += ok;
    }
    return liars > 12; // 2%: five rounds pass with probability above 3e-9
}

// ---- cry_mpi <-> bi -----------------------------------------------------------------------------------
// Reads the number through its public representation; checks the representation invariants.
static inline bi mpi_val(const cry_mpi *a, const char *what, bool strict = true)
{
    if (a->sign != 0 && a->sign != 1) sim::violation("bad-representation", "%s: sign is %d", what, a->sign);
    if (a->alloc && a->used > a->alloc) sim::violation("bad-representation", "%s: used %zu > alloc %zu", what, a->used, a->alloc);
    if (a->used && !a->data) sim::violation("bad-representation", "%s: used %zu but no data", what, a->used);
    if (a->alloc && !sim::is_live(a->data)) sim::violation("bad-representation", "%s: digits are not in a live block", what);
    if (strict && a->used && a->data[a->used - 1] == 0) sim::violation("bad-representation", "%s: not normalised (leading zero digit)", what);
    if (strict && a->used == 0 && a->sign) sim::violation("bad-representation", "%s: negative zero", what);
    bi v = bi_from_le((const uint8_t *)a->data, a->used * sizeof(cry_mpi_digit));
    return a->sign ? bi(-v) : v;
}
// Builds a number the way the library would have left it: digits in a heap block, any spare capacity.
static inline void mpi_make(cry_mpi *a, const bi &v, size_t spare = 0)
{
    bi m = bmp::abs(v);
    size_t digs = (bi_bits(m) + CRY_MPI_DIGIT_BITS - 1) / CRY_MPI_DIGIT_BITS;
    a->sign = v < 0; a->used = digs; a->alloc = digs + spare;
    if (a->alloc == 0) a->alloc = 1;
    a->data = (cry_mpi_digit *)sim::xmalloc(a->alloc * sizeof(cry_mpi_digit));
    std::vector<uint8_t> le = bi_to_be(m, digs * sizeof(cry_mpi_digit));
    for (size_t i = 0; i < le.size(); i++) ((uint8_t *)a->data)[i] = le[le.size() - 1 - i];
}
static inline void mpi_drop(cry_mpi *a) { if (a->data && a->alloc) sim::xfree(a->data); a->data = nullptr; a->alloc = a->used = 0; a->sign = 0; }
static inline void mpi_expect(const cry_mpi *a, const bi &want, const char *cls, const char *what)
{
    bi got = mpi_val(a, what);
    if (got != want) sim::violation(cls, "%s: got %s, exact result is %s", what, bi_str(got).c_str(), bi_str(want).c_str());
}

// ---- value generators ----------------------------------------------------------------------------------
static inline bi gen_bits(size_t bits, sim::Rng &r)
{
    bi v;
    for (size_t i = 0; i < bits; i += 64) v = (v << 64) | bi(r.next());
    return v & ((bi(1) << bits) - 1);
}
// a non-negative value of at most maxbits bits, with a bias towards carries and digit boundaries
static inline bi gen_nonneg(size_t maxbits)
{
    if (maxbits == 0) return 0;
    uint32_t shape = sim::choose(12);
    size_t bits;
    switch (sim::choose(4)) {
    case 0: bits = sim::choose((uint32_t)std::min<size_t>(maxbits, 70) + 1); break;
    case 1: bits = sim::choose((uint32_t)maxbits + 1); break;
    case 2: { size_t d = sim::choose((uint32_t)(maxbits / CRY_MPI_DIGIT_BITS) + 1) * CRY_MPI_DIGIT_BITS + sim::choose(3); bits = d ? d - 1 : 0; break; }
    default: bits = maxbits - sim::choose((uint32_t)std::min<size_t>(maxbits, 10));
    }
    if (bits > maxbits) bits = maxbits;
    sim::Rng r(sim::subseed());
    bi top = bits ? bi(bi(1) << (bits - 1)) : bi(0);
    switch (shape) {
    case 0: return bi(r.below(4));
    case 1: return bits ? bi((bi(1) << bits) - 1) : bi(0);
    case 2: return top;
    case 3: return top + r.below(3);
    case 4: return top > 2 ? bi(top - 1 - r.below(2)) : top;
    case 5: case 6: { // digits that are mostly 0 or all-ones
        bi v = 0; size_t nd = (bits + CRY_MPI_DIGIT_BITS - 1) / CRY_MPI_DIGIT_BITS;
        bi mx = (bi(1) << CRY_MPI_DIGIT_BITS) - 1;
        for (size_t i = 0; i < nd; i++) {
            v <<= CRY_MPI_DIGIT_BITS;
            switch (r.below(6)) { case 0: case 1: break; case 2: case 3: v |= mx; break; case 4: v |= gen_bits(CRY_MPI_DIGIT_BITS, r); break; default: v |= 1 + r.below(2); }
        }
        return v;
    }
    case 7: { // half zero low part
        bi v = gen_bits(bits / 2 + 1, r); return v << (bits / 2); }
    default: return gen_bits(bits, r) | top;
    }
}
static inline bi gen_val(size_t maxbits, bool neg_ok)
{
    bi v = gen_nonneg(maxbits);
    if (neg_ok && sim::choose(3) == 2) v = -v;
    return v;
}

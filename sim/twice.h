// Runs an operation fault free first (learning its allocation count), then again under a chosen fault plan.
#pragma once
#include "sim.h"
#include <functional>
struct R { int ret; unsigned fired, prng; };
static bool faulty, heavy;
static std::function<void()> between; // undoes the effects of the fault-free run on the outputs, so that stale results cannot pass for fresh ones
static inline sim::PrngCfg stream()
{
    using namespace sim;
    PrngCfg c; c.seed = subseed();
    unsigned w[] = {12, 1, 1, 1, 1, 1}; static const PrngCfg::Kind k[] = {PrngCfg::RANDOM, PrngCfg::ZERO, PrngCfg::ONES, PrngCfg::REPEAT, PrngCfg::SPARSE, PrngCfg::LOWBITS};
    c.kind = k[pick_weighted(w, 6)];
    return c;
}
template <class F, class C> static inline R twice(const char *label, sim::PrngCfg st, F f, C check_free, uint64_t budget = sim::step_budget)
{
    using namespace sim;
    prng_set(st); arm(Plan()); int r0 = call(label, f, budget); uint32_t n = (uint32_t)alloc_calls(), pc = (uint32_t)prng_calls(); disarm();
    ev(label, r0 != 0); probe(label); check_free(r0);
    if (!faulty || choose(3) == 0 || (heavy && choose(3))) return {r0, 0, 0};
    if (between) between();
    Plan p; if (n && choose(8)) { p = choose_plan(n); evs("  plan", p.str()); }
    if (pc && (p.mode == Plan::NONE || choose(6) == 0)) { st.fail_at = choose(pc); st.sticky = choose(2); st.partial = choose(2); ev("  random source fails at", st.fail_at); }
    prng_set(st); arm(p); R r; r.ret = call(label, f, budget); r.fired = disarm(); r.prng = prng_failures();
    ev("ret", r.ret != 0, r.fired, r.prng);
    if (r.fired || r.prng) { probe("ops-with-fault"); probe(r.ret ? "fault->error" : "fault->success"); } if (r.prng) probe("prng-failure");
    return r;
}

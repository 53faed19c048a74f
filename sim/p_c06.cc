// C06: Diffie-Hellman over a faulty network. Initiators and one responder run the library's DH or ECDH inside a
// discrete-event simulation: messages are lost, duplicated, delayed and reordered, links are partitioned, nodes crash
// (volatile state gone, only a session/boot counter survives) and restart, clocks run at different rates, allocations
// and the random source fail. A node whose library call fails retries the same step on the same context later.
#include "pk.h"
#include "twice.h"
#include <map>
#include <algorithm>
using namespace sim;
extern "C" const char *scenario_real_components() { return ""; }
namespace {
bool use_ec, large; size_t tl, wl; bi P, G; Curve cv; int builtin = -1; // shared parameters, tl = bytes of a field element, wl = bytes of a DH value on the wire
bool faults_on, alloc_f, prng_f; uint64_t now;
std::map<std::string, uint32_t> allocs; unsigned retries;

// one library call of a node; true when it succeeded
template <class F> bool op(const char *label, F f)
{
    Plan p; PrngCfg st; st.seed = subseed(); uint32_t n = allocs.count(label) ? allocs[label] : 4; if (n == 0) n = 1;
    bool fa = faults_on && alloc_f && choose(4) == 3, fp = faults_on && prng_f && choose(4) == 3;
    if (fa) p = choose_plan(n, label); if (fp) { st.fail_at = choose(2); st.sticky = choose(2); }
    prng_set(st); arm(p); int r = call(label, f); if (!fa) allocs[label] = (uint32_t)alloc_calls(); unsigned fired = disarm(), pf = prng_failures();
    ev(label, r != 0, fired, pf); probe(label);
    if (fired || pf) probe(r ? "fault->error" : "fault->success"); if (pf) probe("prng-failure");
    if (r != 0 && !fired && !pf) violation("spurious-error", "%s returned %d without any fault", label, r);
    if (r != 0) retries++;
    return r == 0;
}
struct Msg { int src, dst; bool resp; uint64_t sid; unsigned bepoch; Bytes tok; };
struct Ctx { cry_dh_ctx *dh = nullptr; cry_ecdh_ctx *ec = nullptr; };
struct Sess {
    uint64_t sid; unsigned bepoch = 0; Ctx c; int stage = 0; bi priv, pub; Pt pubp; Bytes tok, ptok; bool have_peer = false, done = false, scripted = false; bi want_priv;
};
struct Result { Bytes sec; int node; };
std::map<std::pair<uint64_t, unsigned>, Result> done_i, done_r; // completed sides, by session
std::map<std::pair<uint64_t, unsigned>, std::pair<bi, bool>> priv_i, priv_r;

// private values lie below this; with a large modulus they are kept short
bi priv_limit() { return use_ec ? (cv.n > 1 ? cv.n : cv.p) : large ? bi(1) << 50 : P; }
// stages: 0 init, 1 parameters, 2 private value, 3 agree, 4 token out, then 5 peer token in, 6 final, 7 secret out, 8 done
bool advance(Sess &s)
{
    switch (s.stage) {
    case 0:
        if (!use_ec) { if (!s.c.dh) s.c.dh = uobj<cry_dh_ctx>(); garbage(s.c.dh, sizeof *s.c.dh); if (!op("cry_dh_init", [&] { return cry_dh_init(s.c.dh); })) return false; }
        else { if (!s.c.ec) s.c.ec = uobj<cry_ecdh_ctx>(); garbage(s.c.ec, sizeof *s.c.ec); if (!op("cry_ecdh_init", [&] { return cry_ecdh_init(s.c.ec); })) return false; }
        break;
    case 1:
        if (!use_ec) {
            uint8_t *pb = ubuf_copy(bi_to_be(P, tl)), *gb = ubuf_copy(bi_to_be(G, tl));
            if (!op("cry_mpi_load_bin", [&] { return cry_mpi_load_bin(&s.c.dh->p, pb, tl); }) || !op("cry_mpi_load_bin", [&] { return cry_mpi_load_bin(&s.c.dh->g, gb, tl); })) return false;
        } else {
            cry_ecp_grp_clear(&s.c.ec->ec);
            if (builtin >= 0) { if (!op("cry_ecp_grp_load", [&] { return cry_ecp_grp_load(&s.c.ec->ec, builtin); })) grp_make(&s.c.ec->ec, cv, false); } // a failed load holds nothing (C02)
            else grp_make(&s.c.ec->ec, cv, choose(2));
        }
        break;
    case 2: { // private value: from the random source, or an edge value
        cry_mpi *d = use_ec ? &s.c.ec->d : &s.c.dh->e; bi lim = priv_limit();
        if (s.scripted) { uint8_t *b = ubuf_copy(bi_to_be(s.want_priv, 1)); size_t n = bi_to_be(s.want_priv, 1).size(); if (!op("cry_mpi_load_bin", [&] { return cry_mpi_load_bin(d, b, n); })) return false; }
        else { cry_mpi *m = uobj<cry_mpi>(); mpi_make(m, lim, 0); bool ok = op("cry_mpi_rand_range", [&] { return cry_mpi_rand_range(d, m); }); mpi_drop(m); if (!ok) return false; }
        s.priv = mpi_val(d, "private value"); if (!s.scripted && s.priv >= lim) violation("bad-private-value", "private value out of range");
        if (use_ec && s.priv == 0) return false; // the application draws again
        break; }
    case 3:
        if (!use_ec) { if (!op("cry_dh_agree", [&] { return cry_dh_agree(s.c.dh); })) return false; s.pub = bi_powm(G, s.priv, P); mpi_expect(&s.c.dh->Y, s.pub, "wrong-public-value", "cry_dh_agree"); }
        else { if (!op("cry_ecdh_agree", [&] { return cry_ecdh_agree(s.c.ec); })) return false; s.pubp = cv.mul(cv.g, s.priv); Pt q = pt_val(&s.c.ec->q, "q"); if (!(q == s.pubp)) violation("wrong-public-value", "cry_ecdh_agree gives %s, d*G is %s", pt_str(q).c_str(), pt_str(s.pubp).c_str()); }
        break;
    case 4: {
        if (!use_ec) { uint8_t *b = ubuf(wl, choose(8)); if (!op("cry_dh_get_tok", [&] { return cry_dh_get_tok(s.c.dh, b, wl); })) return false; s.tok.assign(b, b + wl); if (s.tok != bi_to_be(s.pub, wl)) violation("wrong-public-value", "cry_dh_get_tok writes another value than g^e mod p"); }
        else {
            if (s.pubp.inf) { s.tok.assign(2 * tl, 0xff); break; } // cannot happen for 0 < d < n; custom groups of unknown order only
            uint8_t *b = ubuf(2 * tl); if (!op("cry_mpi_store_bin", [&] { return cry_mpi_store_bin(&s.c.ec->q.x, b, tl, 1); }) || !op("cry_mpi_store_bin", [&] { return cry_mpi_store_bin(&s.c.ec->q.y, b + tl, tl, 1); })) return false;
            s.tok.assign(b, b + 2 * tl);
        }
        break; }
    case 5: {
        uint8_t *b = ubuf_copy(s.ptok, choose(8)); readonly(b, s.ptok.size()); bool ok;
        if (!use_ec) ok = op("cry_dh_set_tok", [&] { return cry_dh_set_tok(s.c.dh, b, wl); });
        else if (s.ptok == Bytes(2 * tl, 0xff)) ok = op("cry_mpi_set_int", [&] { return cry_mpi_set_int(&s.c.ec->q.z, 0); });
        else ok = op("cry_mpi_load_bin", [&] { return cry_mpi_load_bin(&s.c.ec->q.x, b, tl); }) && op("cry_mpi_load_bin", [&] { return cry_mpi_load_bin(&s.c.ec->q.y, b + tl, tl); }) && op("cry_mpi_set_int", [&] { return cry_mpi_set_int(&s.c.ec->q.z, 1); });
        readonly_drop(b); if (!ok) return false;
        break; }
    case 6:
        if (!use_ec) { if (!op("cry_dh_finalize", [&] { return cry_dh_finalize(s.c.dh); })) return false; mpi_expect(&s.c.dh->Z, bi_powm(bi_from_be(s.ptok.data(), wl), s.priv, P), "wrong-secret", "cry_dh_finalize"); }
        else {
            if (!op("cry_ecdh_final", [&] { return cry_ecdh_final(s.c.ec); })) return false; Pt y; y.inf = s.ptok == Bytes(2 * tl, 0xff); if (!y.inf) { y.x = bi_from_be(s.ptok.data(), tl); y.y = bi_from_be(s.ptok.data() + tl, tl); }
            Pt z = pt_val(&s.c.ec->z, "z"), w = cv.mul(y, s.priv); if (!(z == w)) violation("wrong-secret", "cry_ecdh_final gives %s, expected %s", pt_str(z).c_str(), pt_str(w).c_str());
        }
        break;
    case 7: break;
    }
    return true;
}
bool secret(Sess &s, Bytes &sec)
{
    if (!use_ec) { uint8_t *b = ubuf(wl, choose(8)); if (!op("cry_dh_get_sec", [&] { return cry_dh_get_sec(s.c.dh, b, wl); })) return false; sec.assign(b, b + wl); return true; }
    if (pt_val(&s.c.ec->z, "z").inf) { sec = {1}; return true; }
    uint8_t *b = ubuf(2 * tl); if (!op("cry_mpi_store_bin", [&] { return cry_mpi_store_bin(&s.c.ec->z.x, b, tl, 1); }) || !op("cry_mpi_store_bin", [&] { return cry_mpi_store_bin(&s.c.ec->z.y, b + tl, tl, 1); })) return false;
    sec.assign(b, b + 2 * tl); return true;
}
void intact(Sess &s)
{
    if (s.stage < 3) return;
    if (!use_ec) { mpi_expect(&s.c.dh->p, P, "operand-changed", "modulus"); mpi_expect(&s.c.dh->g, G, "operand-changed", "base"); mpi_expect(&s.c.dh->e, s.priv, "operand-changed", "private value"); }
    else { grp_expect(&s.c.ec->ec, cv, "operand-changed"); mpi_expect(&s.c.ec->d, s.priv, "operand-changed", "private value"); }
}
void vanish(Sess &s) // crash: the memory is gone
{
    if (s.stage < 1) return;
    if (!use_ec) for (cry_mpi *m : {&s.c.dh->p, &s.c.dh->g, &s.c.dh->e, &s.c.dh->Y, &s.c.dh->Z}) mpi_drop(m);
    else { grp_drop(&s.c.ec->ec); mpi_drop(&s.c.ec->d); pt_drop(&s.c.ec->q); pt_drop(&s.c.ec->z); }
}
void clear(Sess &s)
{
    if (s.stage < 1) return; intact(s);
    if (!use_ec) call("cry_dh_clear", [&] { cry_dh_clear(s.c.dh); }); else call("cry_ecdh_clear", [&] { cry_ecdh_clear(s.c.ec); });
}
struct Node {
    bool up = true; unsigned boots = 0, counter = 0, period = 10; // boots and counter are durable
    std::vector<Sess> ss; unsigned completed = 0, target = 1; bool responder = false;
};
struct Event { uint64_t t; unsigned seq; int kind; int node; Msg m; unsigned boot; }; // kind 0 deliver, 1 timer, 2 crash, 3 restart
std::vector<Event> q; unsigned seq; std::vector<Node> nodes; std::vector<std::array<uint64_t, 3>> parts; // partition: from, to, node
uint64_t tstop; unsigned f_loss, f_dup, f_delay;

void post(uint64_t t, int kind, int node, Msg m = Msg()) { q.push_back({t, seq++, kind, node, std::move(m), nodes[node].boots}); }
void send(const Msg &m)
{
    if (!faults_on) { post(now + 1 + choose(3), 0, m.dst, m); return; }
    for (auto &p : parts) if (now >= p[0] && now < p[1] && ((int)p[2] == m.src || (int)p[2] == m.dst)) { probe("net:partitioned"); return; }
    if (choose(8) < f_loss) { probe("net:lost"); ev("lost"); return; }
    unsigned copies = choose(8) < f_dup ? 2 + choose(2) : 1; if (copies > 1) probe("net:duplicated", copies - 1);
    while (copies--) { uint64_t d = 1 + choose(f_delay ? (choose(6) ? 6 : 90) : 3); if (d > 6) probe("net:delayed"); post(now + d, 0, m.dst, m); }
}
void record(std::map<std::pair<uint64_t, unsigned>, Result> &mine, std::map<std::pair<uint64_t, unsigned>, Result> &other, Sess &s, const Bytes &sec, int node)
{
    auto key = std::make_pair(s.sid, s.bepoch); mine[key] = {sec, node}; probe("session-side-done"); evb("secret", sec.data(), sec.size());
    if (other.count(key)) { probe("session-agreed"); if (other[key].sec != sec) violation("disagreement", "both peers completed session %llu but hold different secrets", (unsigned long long)s.sid); }
}
// let a session go on as far as it can; false when a step failed (retry at the next tick)
void drive(int id, Sess &s)
{
    Node &n = nodes[id];
    while (s.stage < 8) {
        if (s.stage == 5 && !s.have_peer) { if (!n.responder) return; }
        if (s.stage == 7) { Bytes sec; if (!secret(s, sec)) return; s.stage = 8; s.done = true; if (n.responder) record(done_r, done_i, s, sec, id); else { record(done_i, done_r, s, sec, id); n.completed++; } return; }
        int before = s.stage; if (!advance(s)) { ev("retry later", id, s.stage); if (s.stage == 1 && builtin >= 0) {} return; }
        s.stage++;
        if (before == 4) { // token ready: tell the peer
            Msg m; m.src = id; m.sid = s.sid; m.tok = s.tok; m.bepoch = s.bepoch; m.resp = n.responder; m.dst = n.responder ? (int)(s.sid >> 32) : 0; send(m);
        }
        if (faults_on && choose(12) == 11) return; // slow node: the rest later
    }
}
void start_session(int id)
{
    Node &n = nodes[id]; n.ss.emplace_back(); Sess &s = n.ss.back(); s.sid = ((uint64_t)id << 32) | ++n.counter;
    s.scripted = choose(3) == 2; if (s.scripted) { bi lim = priv_limit(); s.want_priv = choose(2) ? bi(choose(3)) : lim - 1 - choose(2); if (s.want_priv < 0) s.want_priv = 0; if (use_ec && s.want_priv < 1) s.want_priv = 1; }
    ev("session", id, n.counter); drive(id, s);
}
void on_msg(int id, const Msg &m)
{
    Node &n = nodes[id]; if (!n.up) { probe("net:to-dead-node"); return; }
    if (n.responder) {
        for (auto &s : n.ss) if (s.sid == m.sid) { // duplicate or retransmission
            if (s.stage >= 5) { Msg r; r.src = id; r.dst = m.src; r.resp = true; r.sid = s.sid; r.bepoch = s.bepoch; r.tok = s.tok; send(r); }
            drive(id, s); return; }
        n.ss.emplace_back(); Sess &s = n.ss.back(); s.sid = m.sid; s.bepoch = n.boots; s.ptok = m.tok; s.have_peer = true; ev("accept", id, m.sid); drive(id, s);
    } else {
        for (auto &s : n.ss) if (s.sid == m.sid && !s.have_peer && s.stage == 5) { s.ptok = m.tok; s.bepoch = m.bepoch; s.have_peer = true; drive(id, s); return; }
        probe("net:stale-response");
    }
}
void on_timer(int id)
{
    Node &n = nodes[id]; if (!n.up) return; post(now + n.period, 1, id);
    if (!n.responder) {
        bool open = false;
        for (auto &s : n.ss) if (!s.done) {
            open = true;
            if (s.stage == 5 && !s.have_peer) { Msg m; m.src = id; m.dst = 0; m.resp = false; m.sid = s.sid; m.tok = s.tok; send(m); }
            else drive(id, s);
        }
        if (!open && n.completed < n.target) {
            if (!n.ss.empty() && choose(2)) { clear(n.ss.back()); n.ss.pop_back(); }
            start_session(id);
        }
    } else for (size_t i = 0; i < n.ss.size(); i++) if (!n.ss[i].done) drive(id, n.ss[i]);
}
}
extern "C" void scenario()
{
    bool tiny = sizeof(cry_mpi_digit) == 1; use_ec = choose(2); unsigned prof = choose(4); // fault profile
    alloc_f = prof & 1; prng_f = prof & 2; faults_on = choose(5) != 0; bool any = faults_on;
    if (use_ec) {
        std::vector<Pt> pts; unsigned k = choose(40);
        if (k == 39 && !tiny) { builtin = choose(11); cv = std_curve(builtin); }
        else if (k & 1) cv = ordered_curve(choose(tiny ? 8 : 14)); else cv = tiny_curve(pts, true, 5);
        tl = bi_to_be(cv.p).size();
    } else {
        large = !tiny && choose(80) == 79; size_t bits = 3 + choose(tiny ? 90 : choose(6) ? 160 : 500); Rng g(subseed());
        if (large) { P = gen_bits(8 * large_len(), g); P += 1 - P % 2; probe("large-modulus"); } else if (choose(4)) P = gen_prime(std::max<size_t>(bits, 4), g); else P = gen_nonneg(bits); if (P < 2) P = 5; G = choose(4) ? bi(2 + choose(4)) : bi_mod(gen_nonneg(bits + 8), P); tl = bi_to_be(P).size();
        if (bi_to_be(G).size() > tl) G = bi_mod(G, P);
        wl = choose(3) ? tl : choose(30) ? tl + 1 + choose(300) : tl + long_len(); if (wl > tl) probe("padded-token");
    }
    note("parameters", use_ec ? "curve over " + bi_str(cv.p) + " generator " + pt_str(cv.g) : "p=" + bi_str(P) + " g=" + bi_str(G));
    unsigned ninit = 1 + choose(2); if (builtin >= 0 || large) ninit = 1;
    nodes.resize(1 + ninit); nodes[0].responder = true; f_loss = any ? choose(6) : 0; f_dup = any ? choose(5) : 0; f_delay = any && choose(2); tstop = any ? 60 + choose(300) : 0;
    for (unsigned i = 0; i < nodes.size(); i++) { nodes[i].period = 5 + choose(20); nodes[i].target = builtin >= 0 ? 1 : 1 + choose(3); post(choose(10), 1, i); }
    if (any) {
        unsigned nc = choose(4); for (unsigned i = 0; i < nc; i++) { unsigned who = choose((uint32_t)nodes.size()); post(choose((uint32_t)tstop), 2, who); }
        unsigned np = choose(3); for (unsigned i = 0; i < np; i++) { uint64_t a = choose((uint32_t)tstop), b = a + choose(80); parts.push_back({a, b, choose((uint32_t)nodes.size())}); }
    }
    uint64_t deadline = tstop + 1200; bool complete = false; unsigned heals = 0;
    while (!q.empty()) {
        auto it = std::min_element(q.begin(), q.end(), [](const Event &a, const Event &b) { return a.t != b.t ? a.t < b.t : a.seq < b.seq; });
        Event e = *it; *it = q.back(); q.pop_back(); now = e.t;
        if (faults_on && now >= tstop) { faults_on = false; ev("faults stop", now); for (auto &n : nodes) if (!n.up) { n.up = true; n.boots++; post(now + 1, 1, (int)(&n - &nodes[0])); } }
        if (now > deadline) break;
        Node &n = nodes[e.node]; if (e.kind == 1 && e.boot != n.boots) continue; // timer of an earlier life
        ev(e.kind == 0 ? "deliver" : e.kind == 1 ? "timer" : e.kind == 2 ? "crash" : "restart", now, e.node);
        switch (e.kind) {
        case 0: on_msg(e.node, e.m); break;
        case 1: on_timer(e.node); break;
        case 2: if (n.up && faults_on) { probe("crash"); for (auto &s : n.ss) { intact(s); vanish(s); } n.ss.clear(); n.up = false; n.boots++; post(now + 1 + choose(40), 3, e.node); } break;
        default: if (!n.up) { probe("restart"); n.up = true; n.boots++; post(now + 1, 1, e.node); }
        }
        complete = true; for (unsigned i = 1; i < nodes.size(); i++) if (nodes[i].completed < nodes[i].target) complete = false;
        for (auto &s : nodes[0].ss) if (!s.done && !faults_on) complete = false;
        if (complete && !faults_on) break;
        if (complete && choose(2)) break;
    }
    if (!complete) violation("no-progress", "handshakes not completed %llu steps after the last fault", (unsigned long long)(now - tstop));
    note_time(now); probe("retried-steps", retries);
    for (auto &n : nodes) for (auto &s : n.ss) clear(s);
}

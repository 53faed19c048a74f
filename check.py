#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by seeded simulation of the current /repo tree.

exit 0: held on everything explored; exit 1 + "VIOLATION property=.. replay=..": broken; anything else: error."""
import json, os, shutil, signal, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import PROPS

HERE = B.HERE
REPLAYS = os.path.join(HERE, "replays")

def known_findings(prop):
    res = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % prop):
                f = line.split()
                res.append(f[2].split("=", 1)[1])
    return res

def sh(cmd, timeout=None):
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        return p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.wait()
        return 124

def killtree(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        p.kill()

def lenient(prop, exe, variant, seed, viol, tmp, known, tier):
    """The code under test itself behaves differently from process to process (it read addresses or uninitialised memory):
    the unminimised seed still has to give the same class of violation in two fresh processes."""
    opts = ["--runlimit", "600", "--known", known, "--thorough", "1" if tier == "thorough" else "0"]
    for _ in range(2):
        one = os.path.join(tmp, "one.json")
        sh([exe, "one", "--seed", str(seed), "--from", str(viol["idx"]), "--out", one] + opts, 300)
        try:
            o = json.load(open(one))
        except Exception:
            return None, None
        if o["status"] != 1 or o["class"].split("/")[0] != viol["class"].split("/")[0]:
            return None, None
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s-seed%d-run%d.json" % (prop, variant, seed, viol["idx"]))
    o.update(property=prop, variant=variant, seed=seed, run=viol["idx"], original_choices=len(viol["choices"]), original_desc=viol["desc"],
             replay_with="python3 check.py --replay " + os.path.relpath(path, HERE), note="class reproduces, trace hash varies between processes")
    json.dump(o, open(path, "w"), indent=1)
    return path, o

def gate(prop, exe, variant, seed, viol, tmp, known, tier):
    """same seed again in a fresh process, minimise, replay the minimised file twice in fresh processes."""
    opts = ["--runlimit", "600", "--known", known, "--thorough", "1" if tier == "thorough" else "0"]
    one = os.path.join(tmp, "one.json")
    sh([exe, "one", "--seed", str(seed), "--from", str(viol["idx"]), "--out", one] + opts, 300)
    try:
        o = json.load(open(one))
    except Exception as e:
        return None, "rerun gave no result: %s" % e
    if o["status"] != 1 or o["class"] != viol["class"] or o["hash"] != viol["hash"]:
        return None, "not reproducible from its seed: %s %s vs %s %s" % (viol["class"], viol["hash"], o["class"], o["hash"])
    vf = os.path.join(tmp, "v.json"); json.dump(viol, open(vf, "w"))
    sf = os.path.join(tmp, "s.json")
    rc = sh([exe, "shrink", "--in", vf, "--time", "45", "--out", sf] + opts, 150)
    if rc != 0:        # fall back on the trace as found
        rc = sh([exe, "replay", "--in", vf, "--out", sf] + opts, 300)
        if rc != 1:
            return None, "the recorded trace does not replay (%d)" % rc
    s = json.load(open(sf))
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s-seed%d-run%d.json" % (prop, variant, seed, viol["idx"]))
    s.update(property=prop, variant=variant, seed=seed, run=viol["idx"], original_choices=len(viol["choices"]),
             original_desc=viol["desc"], replay_with="python3 check.py --replay " + os.path.relpath(path, HERE))
    json.dump(s, open(path, "w"), indent=1)
    for _ in range(2):
        r = os.path.join(tmp, "r.json")
        rc = sh([exe, "replay", "--in", path, "--out", r] + opts, 300)
        d = json.load(open(r))
        if rc != 1 or d["class"] != s["class"] or d["hash"] != s["hash"]:
            return None, "replay of the minimised file differs"
    return path, s

def replay(path):
    d = json.load(open(path))
    exe = B.build(d["property"], [d["variant"]])[d["variant"]]
    out = os.path.join(tempfile.mkdtemp(prefix="verif-replay-"), "o.json")
    sh([exe, "replay", "--in", path, "--out", out, "--known", ",".join(known_findings(d["property"]))], 300)
    r = json.load(open(out)); shutil.rmtree(os.path.dirname(out))
    print("\n".join(r["log"]))
    if r["status"] == 1:
        print("reproduced: class=%s (recorded %s) trace %s (recorded %s)\n%s" % (r["class"], d["class"], r["hash"], d["hash"], r["desc"]))
        return 1
    print("not reproduced on this tree")
    return 0

def main():
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = PROPS[prop]
    t0 = time.time()
    known = ",".join(known_findings(prop))
    try:
        exes = B.build(prop, list(cfg["variants"]), cfg.get("extra", ()))
    except B.BuildError as e:
        print(e); print("ERROR: build failed"); sys.exit(2)
    t_build = time.time() - t0
    runs_total, secs = cfg[tier]
    W = max(2, min(8, os.cpu_count() or 4))
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = search(prop, tier, seed, cfg, exes, W, runs_total, secs, tmp, known, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def search(prop, tier, seed, cfg, exes, W, runs_total, secs, tmp, known, t0, t_build):
    # workers: proportionally to the weights of the variants
    wts = cfg["variants"]; tot = float(sum(wts.values())); plan = []
    for v, w in wts.items():
        plan += [v] * max(1, round(W * w / tot))
    cnt = {v: plan.count(v) for v in wts}
    seen = {v: 0 for v in wts}
    procs = []
    for i, v in enumerate(plan):
        per = max(1, int(runs_total * wts[v] / tot / cnt[v]))
        if v in cfg.get("fixed", {}):
            per = cfg["fixed"][v][0 if tier == "quick" else 1]
        out = os.path.join(tmp, "w%d.json" % i)
        cmd = [exes[v], "run", "--seed", str(seed), "--from", str(seen[v]), "--stride", str(cnt[v]), "--n", str(per), "--time", str(secs),
               "--out", out, "--known", known, "--runlimit", "600" if v in cfg.get("nodet", ()) else "240", "--thorough", "1" if tier == "thorough" else "0"]
        seen[v] += 1
        procs.append((v, out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, "w%d.err" % i), "w"), start_new_session=True)))
    ts = time.time()
    stop = False
    while any(p.poll() is None for _, _, p in procs):
        time.sleep(0.05)
        if any(p.poll() == 1 for _, _, p in procs) and not stop:
            stop = True; t_stop = time.time()
        if stop and time.time() - t_stop > 2:
            for _, _, p in procs:
                if p.poll() is None: killtree(p)
        if time.time() - ts > secs + 200:
            for _, _, p in procs:
                if p.poll() is None: killtree(p)
    agg = dict(runs=0, ops=0, allocs=0, alloc_faults=0, prng_faults=0, steps=0, simtime=0)
    hashes, probes, viols, errors, edges, kn, edgetot = set(), {}, [], [], {}, {}, 0
    noverdict, nv = [], 0
    for v, out, p in procs:
        try:
            d = json.load(open(out))
        except Exception:
            if not stop:
                errors.append("worker of %s produced no result (rc=%s)" % (v, p.returncode))
            continue
        for k in agg: agg[k] += d[k]
        hashes.update((v, x) for x in d["hashes"])
        for k, n in d["probes"].items(): probes[k] = probes.get(k, 0) + n
        e = int(d["edge_bits"], 16) if d["edge_bits"] else 0
        edges[v] = edges.get(v, 0) | e
        edgetot = d["edges"]
        for l in d["known"].splitlines():
            a, _, b = l.partition("\t"); kn.setdefault(a, b)
        if d["errors"]:
            noverdict.append("%s: %s" % (v, "; ".join(l.strip() for l in open(out[:-5] + ".err", errors="replace") if l.startswith("sim:"))[:400])); nv += d["errors"]
        if "violation" in d: viols.append((d["violation"]["idx"], v, d["violation"]))
    t_search = time.time() - ts
    ok_viol, gate_fail = None, []
    for idx, v, viol in sorted(viols, key=lambda x: (len(x[2]["choices"]), x[0])):
        path, s = gate(prop, exes[v], v, seed, viol, tmp, known, tier)
        if path:
            ok_viol = (path, s, v); break
        gate_fail.append(s)
    for idx, v, viol in viols:
        if not ok_viol:
            path, s = lenient(prop, exes[v], v, seed, viol, tmp, known, tier)
            if path: ok_viol = (path, s, v)
    # determinism: the same seeds in other processes, differently batched, must give the same traces
    det = dict(seeds=0, mismatches=0)
    if not viols:
        nd = cfg.get("det", 12 if tier == "quick" else 60)
        for v in wts:
            if v in cfg.get("nodet", ()): continue
            outs = []
            for k, (fr, st, n) in enumerate(((0, 7, nd), (0, 7, nd // 2), (7 * (nd // 2), 7, nd - nd // 2))):
                o = os.path.join(tmp, "d%s%d" % (v, k))
                outs.append((o, subprocess.Popen([exes[v], "hashes", "--seed", str(seed), "--from", str(fr), "--stride", str(st), "--n", str(n), "--time", "40", "--out", o,
                             "--known", known, "--thorough", "1" if tier == "thorough" else "0"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
            for o, p in outs: p.wait()
            a = dict(l.split(None, 1) for l in open(outs[0][0]))
            b = {}
            for o, _ in outs[1:]: b.update(l.split(None, 1) for l in open(o))
            for k in a:
                if k in b:
                    det["seeds"] += 1
                    if a[k] != b[k]: det["mismatches"] += 1
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg["level"], wall_s=round(wall, 2), violations=1 if ok_viol else 0,
      coverage=dict(
        evaluations=agg["runs"], distinct_nontrivial=len(hashes),
        rule="one evaluation = one simulated run of the real library code (own process, choices from VERIF_SEED and the run index); distinct = different hash of the complete "
             "event trace (operations, arguments, fired faults, scheduling switches, return values, basic-block count); every run performs library operations, none is trivial",
        samples=samples(exes, [v for v in wts if v not in cfg.get('nodet', ())], seed, tmp, known),
        simulated_runs_per_hour=int(agg["runs"] / max(t_search, 1e-3) * 3600), seeds_per_hour=int(agg["runs"] / max(t_search, 1e-3) * 3600),
        library_calls=agg["ops"], simulated_time_steps=agg["simtime"], simulated_time_note=cfg.get("timenote", "no clock in this property: time is counted in basic-block steps of library code"),
        basic_block_steps=agg["steps"],
        faults_fired=dict(allocation_failures=agg["alloc_faults"], random_source_failures=agg["prng_faults"],
                          **{k: n for k, n in sorted(probes.items()) if k.startswith(("alloc-fail:", "net:", "crash", "prng-", "corrupt", "preempt", "sched", "restart", "abandon"))}),
        allocation_calls=agg["allocs"], probes=dict(sorted(probes.items())),
        edges_hit={v: bin(e).count("1") for v, e in edges.items()}, edges_total=edgetot,
        variants=list(wts), real_components=cfg["real"], stubbed_components=cfg["stub"], determinism_selftest=det,
        build_s=round(t_build, 2), search_s=round(t_search, 2), runs_without_verdict=nv, known_findings_seen=kn),
      assumptions=cfg.get("assumptions", []) + ["sampled, not exhaustive: a clean batch is evidence, not proof",
        "library compiled with clang -O%d and AddressSanitizer from the current /repo/src; allocator and random source are the simulator's" % (0 if list(wts) == ["thr"] else 1)])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for k, d in kn.items():
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, d))
    print("%s %s: %d runs (%d distinct traces), %d library calls, %d allocation failures, %d random-source failures, %.1f s search, %.1f s build" %
          (prop, tier, agg["runs"], len(hashes), agg["ops"], agg["alloc_faults"], agg["prng_faults"], t_search, t_build))
    if ok_viol:
        path, s, v = ok_viol
        print("class: %s\n%s\nminimised from %d to %d choices; trace:" % (s["class"], s["desc"], s["original_choices"], len(s["choices"])))
        print("\n".join("  " + x for x in s["log"][-40:]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if gate_fail:
        print("ERROR: a violation was seen but did not pass the gate: " + "; ".join(gate_fail)); return 2
    if noverdict and nv * 1000 > agg["runs"]:       # a few runs cut short by a slow machine are no reason to give no answer
        errors.append("%d of %d runs ended without a verdict (%s)" % (nv, agg["runs"], " | ".join(noverdict)[:1500]))
    elif noverdict:
        print("note: %d of %d runs ended without a verdict (%s)" % (nv, agg["runs"], " | ".join(noverdict)[:500]))
    if errors:
        print("ERROR: " + "; ".join(errors)); return 2
    if det["mismatches"]:
        print("ERROR: determinism self-test failed on %d of %d seeds" % (det["mismatches"], det["seeds"])); return 2
    return 0

def samples(exes, wts, seed, tmp, known):
    res = []
    for v in wts:
        o = os.path.join(tmp, "sample.json")
        sh([exes[v], "one", "--seed", str(seed), "--from", "3", "--out", o, "--known", known], 120)
        try:
            d = json.load(open(o))
            res.append(dict(variant=v, seed=seed, run=3, choices=len(d["choices"]), trace_hash=d["hash"], log=[x[:200] for x in d["log"][:14]]))
        except Exception:
            pass
    return res

if __name__ == "__main__":
    main()

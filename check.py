#!/usr/bin/env python3
"""check.py PROPERTY            decide one property (VERIF_SEED, VERIF_TIER=quick|thorough)
   check.py --replay FILE       replay a violation file against /repo's current tree
   check.py --setup             build only

Builds the simulator together with /repo's current sources, runs seeded simulations of the property's
scenario profiles on all cores, gates every violation (same seed in a fresh process and replay of the recorded
decisions must give the same violation), minimises it and writes the replay file and the evidence file."""
import json, os, re, subprocess, sys, time, tempfile, shutil, signal, threading, queue, collections

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("WSSIM_REPO", "/repo")
BUILD = os.environ.get("WSSIM_BUILD", os.path.join(HERE, "_build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
NW = int(os.environ.get("WSSIM_WORKERS", "0")) or os.cpu_count() or 8
QUICK_S = float(os.environ.get("WSSIM_SECONDS", "0")) or 45.0
THOROUGH_S = float(os.environ.get("WSSIM_SECONDS", "0")) or 1500.0
SIM = os.path.join(BUILD, "wssim")

# property -> [(profile, share of the time)]
from profiles import PROFILES, VARIANTS, QUICK_SCALE, RULES, ASSUMPTIONS, REAL, STUB  # noqa: E402

def die(msg, code=2):
    print("ERROR: " + msg, flush=True); sys.exit(code)

def build(variants=("",)):
    """builds the simulator with the code under test; a variant is another build configuration of the code under test"""
    t = time.time()
    for v in variants:
        b = BUILD + ("_" + v if v else ""); e = dict(os.environ); e["WSS_EXTRA"] = VARIANTS[v]
        p = subprocess.run(["bash", os.path.join(HERE, "build.sh"), b, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
        if p.returncode != 0 or not os.path.exists(os.path.join(b, "wssim")): die("build failed\n" + p.stdout[-4000:])
    return time.time() - t

def select(prof):
    """'variant:profile' -> profile, with SIM set to the variant's simulator"""
    global SIM
    v, _, p = prof.rpartition(":"); SIM = os.path.join(BUILD + ("_" + v if v else ""), "wssim")
    return p
def variants_of(prop): return sorted(set(p.rpartition(":")[0] for p, _ in PROFILES[prop]))

def run_file(path, timeout=120, env=None):
    e = dict(os.environ); e["SIM_QUIET"] = "1"; e["SIM_NOTRACE"] = "1"
    if env: e.update(env)
    try: p = subprocess.run([SIM, "run", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, env=e)
    except subprocess.TimeoutExpired: return {"status": 4, "cls": "driver", "sig": "timeout", "msg": "timeout", "stats": {}}
    for l in p.stdout.decode("utf8", "replace").splitlines():
        if l.startswith("{"):
            try: return json.loads(l)
            except ValueError: pass
    return {"status": 4, "cls": "driver", "sig": "no result", "msg": p.stdout.decode("utf8", "replace")[-300:], "stats": {}}

def ident(d): return (d["status"], d["cls"], d["sig"])
def full(d): return (d["status"], d["cls"], d["sig"], d["stats"].get("ihash"), d["stats"].get("ahash"), d["stats"].get("points"))

class Batch:
    """NW processes over one profile; worker k runs seeds base+k, base+k+NW, ..."""
    def __init__(self, profile, base, seconds, outdir, n=10**9, maxv=1):
        profile = select(profile)
        self.q = queue.Queue(); self.procs = []; self.threads = []; self.profile = profile
        for k in range(NW):
            pr = subprocess.Popen([SIM, "batch", profile, str(base + k), str(NW), str(n), str(seconds), outdir, str(maxv)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=os.setpgrp)
            self.procs.append(pr)
            t = threading.Thread(target=self.pump, args=(pr,), daemon=True); t.start(); self.threads.append(t)
    def pump(self, pr):
        for l in pr.stdout:
            try: self.q.put(json.loads(l))
            except ValueError: self.q.put({"seed": -1, "status": 4, "cls": "driver", "sig": "bad output", "msg": repr(l[:300]), "stats": {}})
    def alive(self): return any(p.poll() is None for p in self.procs)
    def stop(self):
        for p in self.procs:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait()
        for t in self.threads: t.join(5)
    def drain(self):
        while True:
            try: yield self.q.get_nowait()
            except queue.Empty: return

def base_seed(i): return (SEED % 100000) * 100000000 + i * 10000000 + 1

def known_findings():
    k = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) sig=(\S+) (.*)", l.strip())
            if m: k.append(m.groups())
    return k

# ------------------------------------------------------------------ minimisation
def split_replay(text):
    head, _, dec = text.partition("--- decisions\n")
    return head.splitlines(), dec.splitlines()
def join_replay(head, dec): return "\n".join(head) + "\n--- decisions\n" + "".join(d + "\n" for d in dec)

def minimise(text, want, budget, tmp):
    """delta debugging over decisions and scenario lines; a candidate counts if class and signature stay the same"""
    t0 = time.time(); head, dec = split_replay(text); tried = [0]
    left = lambda: budget - (time.time() - t0)
    def test(cands):
        """returns the index of the first candidate that still fails the same way"""
        ps = []
        for i, (h, d) in enumerate(cands):
            f = os.path.join(tmp, "m%d.txt" % i); open(f, "w").write(join_replay(h, d))
            e = dict(os.environ); e["SIM_QUIET"] = "1"; e["SIM_NOTRACE"] = "1"
            ps.append(subprocess.Popen([SIM, "run", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e)); tried[0] += 1
        hit = None
        for i, p in enumerate(ps):
            try: o, _ = p.communicate(timeout=max(5, left() + 5))
            except subprocess.TimeoutExpired: p.kill(); p.communicate(); continue
            for l in o.decode("utf8", "replace").splitlines():
                if l.startswith("{"):
                    try: r = json.loads(l)
                    except ValueError: continue
                    if hit is None and ident(r) == want: hit = i
        return hit
    def ddmin(items, mk):
        n = 2
        while len(items) >= 1 and left() > 0:
            n = min(n, len(items)); size = max(1, -(-len(items) // n))
            cands = [items[:i] + items[i + size:] for i in range(0, len(items), size)]
            found = False
            for j in range(0, len(cands), NW):
                if left() <= 0: return items
                grp = cands[j:j + NW]; h = test([mk(c) for c in grp])
                if h is not None: items = grp[h]; n = max(n - 1, 2); found = True; break
            if not found:
                if size == 1: break
                n = min(len(items), n * 2)
        return items
    h0 = test([(head, [])])
    if h0 is not None: dec = []
    else: dec = ddmin(dec, lambda c: (head, c))
    fixed = [l for l in head if not l.startswith("op ") and not l.startswith("dir ")]; ops = [(i, l) for i, l in enumerate(head) if l.startswith("op ") or l.startswith("dir ")]
    def mkhead(keep):
        ks = set(i for i, _ in keep); return [l for i, l in enumerate(head) if not (l.startswith("op ") or l.startswith("dir ")) or i in ks]
    ops = ddmin(ops, lambda c: (mkhead(c), dec)); head = mkhead(ops)
    used = set(l.split()[1] for l in head if l.startswith("op "))
    drop = [l for l in head if l.startswith("client ") and l.split()[1] not in used]
    for d in drop:
        if left() <= 0: break
        c = [l for l in head if l != d]
        if test([(c, dec)]) is not None: head = c
    if dec and left() > 0: dec = ddmin(dec, lambda c: (head, c))
    return join_replay(head, dec), tried[0]

# ------------------------------------------------------------------ one check
def check(prop):
    if prop not in PROFILES: die("unknown property " + prop)
    t0 = time.time(); tb = build(variants_of(prop))
    total = THOROUGH_S if TIER == "thorough" else QUICK_S * (1 if "WSSIM_SECONDS" in os.environ else QUICK_SCALE.get(prop, 1))
    out = tempfile.mkdtemp(prefix="wssim.", dir=BUILD); known = [k for k in known_findings() if k[0] == prop]; seen_known = {}
    agg = collections.Counter(); faults = collections.Counter(); ih = set(); nt = set(); per = {}; samples = []; viol = []; errors = []; nondet = []; shares = PROFILES[prop]; ssum = float(sum(s for _, s in shares))
    t1 = time.time(); det_checked = 0
    try:
        for pi, (prof, share) in enumerate(shares):
            select(prof); secs = total * share / ssum; base = base_seed(pi); b = Batch(prof, base, secs, out, maxv=3 if known else 1); first = {}; cnt = 0; stop_at = None
            while True:
                alive = b.alive()
                for d in list(b.drain()):
                    cnt += 1; st = d["stats"]
                    if d["status"] in (3, 4): errors.append((prof, d)); continue
                    agg["runs"] += 1
                    for k in ("points", "syncs", "switches", "deviations", "vtime_ns", "conns", "msgs_sent", "msgs_recv", "frames_recv", "evals"): agg[k] += st.get(k, 0)
                    for k, v in st.get("faults", {}).items(): faults[k] += v
                    ih.add(st.get("ihash"))
                    if st.get("nontrivial", 0) > 0: nt.add(st.get("ihash"))
                    if len(first) < 2 * NW: first[d["seed"]] = full(d)
                    if d["status"] == 2:
                        hit = [k for k in known if k[1] == d["sig"].replace(" ", "_")]
                        if hit: seen_known[d["sig"]] = hit[0]; continue
                        viol.append((prof, d)); stop_at = stop_at or time.time() + 0.5
                if stop_at and time.time() > stop_at: break
                if not alive and b.q.empty(): break
                time.sleep(0.02)
            b.stop(); per[prof] = cnt
            if len(samples) < 3:
                samples.append({"profile": prof, "seed": base, "scenario": subprocess.run([SIM, "gen", select(prof), str(base)], stdout=subprocess.PIPE, text=True).stdout})
            if viol: break
            # determinism: the first seeds again, in other processes with another distribution over workers
            seeds = sorted(first)[: (2 * NW if TIER == "thorough" else NW)]
            for s in seeds:
                pass
            rr = rerun(prof, seeds, out)
            for s in seeds:
                det_checked += 1
                if rr.get(s) != first[s]: nondet.append((prof, {"seed": s, "status": 3, "sig": "nondeterminism: %s vs %s" % (first[s], rr.get(s)), "msg": ""})); break
            if nondet: break
        wall = time.time() - t1
        rc = 0; replay = None; nviol = 0
        gate = []
        for prof, d in sorted(viol, key=lambda v: v[1]["stats"].get("points", 0))[:12]:
            f = os.path.join(out, "v-%s-%d.replay" % (select(prof), d["seed"]))
            rr = rerun(prof, [d["seed"]], out).get(d["seed"])
            if rr != full(d): gate.append("the seed does not reproduce: profile %s seed %d first %s then %s" % (prof, d["seed"], full(d), rr)); continue
            r1 = run_file(f)
            if ident(r1) != ident(d): gate.append("replaying the decisions does not reproduce: profile %s seed %d first %s then %s" % (prof, d["seed"], ident(d), ident(r1))); continue
            text = open(f).read(); small, tried = minimise(text, ident(d), 25 if TIER == "quick" else 120, out)
            replay = os.path.join(HERE, "evidence", "%s.replay" % prop); os.makedirs(os.path.dirname(replay), exist_ok=True)
            for cand in (small, text):
                open(replay, "w").write("# property %s profile %s seed %d\n# violation %s\n" % (prop, prof, d["seed"], d["sig"].replace("\n", " ")) + cand)
                a, c = run_file(replay), run_file(replay)
                if ident(a) == ident(d) and full(a) == full(c): break
            else: gate.append("the minimised file does not replay: profile %s seed %d" % (prof, d["seed"])); continue
            nviol = 1; rc = 1
            print("violation: %s" % d["sig"]); print(a["msg"])
            print("profile %s seed %d, minimised with %d replays to %d scenario lines and %d decisions" % (prof, d["seed"], tried, len(split_replay(cand)[0]), len(split_replay(cand)[1])))
            break
        if viol and not rc: die("gate: " + "; ".join(gate[:3]))
        if nondet and not rc: prof, d = nondet[0]; die("simulator error: profile %s seed %s: %s" % (prof, d.get("seed"), d.get("sig")))
        if errors and not rc:
            prof, d = errors[0]; msg = "simulator error in %d of %d runs: profile %s seed %s: %s %s" % (len(errors), agg["runs"] + len(errors), prof, d.get("seed"), d.get("sig"), d.get("msg", "")[:1500])
            if len(errors) * 20 > agg["runs"] + len(errors): die(msg)
            print("NOTE: " + msg)
        ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "exploration",
              "coverage": {"evaluations": agg["runs"], "distinct_nontrivial": len(nt),
                "rule": RULES.get(prop, "") + " One evaluation is one simulated run of a generated scenario under one seed; it is non-trivial if at least one oracle of the property judged something (a message, response, Close, reclaim or shutdown), and distinct by a hash over the sequence of scheduling decisions and synchronisation events.",
                "samples": samples, "runs_by_profile": per, "runs_per_hour": int(agg["runs"] / max(wall, 0.001) * 3600), "seeds_per_hour": int(agg["runs"] / max(wall, 0.001) * 3600), "simulated_seconds": agg["vtime_ns"] / 1e9,
                "distinct_interleavings": len(ih), "interleaving_measure": "hash over every context switch with the point it happened at", "scheduling_points": agg["points"], "sync_points": agg["syncs"], "context_switches": agg["switches"], "forced_preemptions_and_deviations": agg["deviations"],
                "oracle_evaluations": agg["evals"], "connections": agg["conns"], "messages_sent": agg["msgs_sent"], "messages_received": agg["msgs_recv"], "frames_received": agg["frames_recv"], "faults_injected": dict(faults), "determinism_reruns": det_checked, "runs_aborted_by_simulator_limits": len(errors),
                "real_components": REAL, "stub_components": STUB, "known_findings_seen": sorted(seen_known), "build_s": round(tb, 2)},
              "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": nviol}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
        for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
        print("%s: %d runs, %d distinct non-trivial, %d faults, %.0f s simulated, %.1f s wall" % (prop, agg["runs"], len(nt), sum(faults.values()), agg["vtime_ns"] / 1e9, time.time() - t0))
        if rc: print("VIOLATION property=%s replay=%s" % (prop, replay))
        return rc
    finally:
        shutil.rmtree(out, ignore_errors=True)

def rerun(prof, seeds, out):
    """the given seeds again, each in a process of its own"""
    res = {}; ps = []
    d = os.path.join(out, "rr"); os.makedirs(d, exist_ok=True)
    for i in range(0, len(seeds), NW):
        ps = [(s, subprocess.Popen([SIM, "batch", select(prof), str(s), "1", "1", "100", d, "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)) for s in seeds[i:i + NW]]
        for s, p in ps:
            o, _ = p.communicate()
            try: res[s] = full(json.loads(o))
            except ValueError: res[s] = None
    return res

def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup": print("built in %.1f s" % build(sorted(VARIANTS))); return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        m = re.search(r"^# property \S+ profile (\S+) seed", open(sys.argv[2]).read(), re.M); prof = m.group(1) if m else ""
        build([prof.rpartition(":")[0]]); select(prof); r = run_file(sys.argv[2]); print(r["msg"]); print(r["sig"]); print("points %s ahash %s" % (r["stats"].get("points"), r["stats"].get("ahash")))
        return 1 if r["status"] == 2 else 0 if r["status"] == 1 else 2
    if len(sys.argv) < 2: die(__doc__)
    return check(sys.argv[1])
if __name__ == "__main__": sys.exit(main())

#!/usr/bin/env python3
"""Runs the deterministic simulation for one property: build, search, gate the replay, write evidence.
usage: check.py C01 [--tier quick|thorough] [--secs N] [--jobs N]   |   check.py --replay FILE"""
import os, sys, json, time, subprocess, re, struct, hashlib, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simbuild, props
VERIF = simbuild.VERIF
NAMES = ["none"]
def arg(k, d=None):
    return sys.argv[sys.argv.index(k) + 1] if k in sys.argv else d

def known_findings():
    out = []
    p = VERIF + "/known_findings.txt"
    if not os.path.exists(p): return out
    for l in open(p):
        l = l.strip()
        if not l.startswith("known: "): continue
        m = re.match(r'known: property=(\S+) kind=(\S+) match="([^"]*)" (.*)', l)
        if m: out.append(dict(prop=m.group(1), kind=m.group(2), match=m.group(3), what=m.group(4)))
        else: raise SystemExit("bad line in known_findings.txt: " + l)
    return out

def symbolise(exe, msg):
    ad = list(dict.fromkeys(re.findall(r"0x[0-9a-f]{5,8}\b", msg)))[:14]
    if not ad: return []
    try:
        r = subprocess.run(["addr2line", "-Cfie", exe] + ad, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60).stdout.decode().splitlines()
    except Exception: return []
    out = []
    for i in range(0, len(r) - 1, 2):
        out.append("    %s (%s)" % (r[i][:110], r[i + 1].replace("/repo/", "")))
    return out[:24]

def replay(path):
    exe = simbuild.build()
    r = subprocess.run([exe, "--replay", path] + (["-v", "1"] if "-v" in sys.argv else []), stdout=subprocess.PIPE)
    sys.stdout.write(r.stdout.decode(errors="replace"))
    sys.exit(1 if r.returncode in (1, 3) else 0 if r.returncode == 0 else 2)

def main():
    if "--replay" in sys.argv: replay(arg("--replay"))
    prop = sys.argv[1]
    cfg = props.PROPS[prop]
    tier = arg("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", arg("--seed", "1")))
    jobs = int(arg("--jobs", "8"))
    secs = float(arg("--secs", "0")) or (props.QUICK_SECS if tier == "quick" else props.THOROUGH_SECS)
    t0 = time.time()
    exe = simbuild.build()
    tbuild = time.time() - t0
    work = VERIF + "/build/run-%s-%d" % (prop, os.getpid()); os.makedirs(work, exist_ok=True)
    kn = [k for k in known_findings() if k["prop"] == prop]
    kf = work + "/known"
    with open(kf, "w") as f:
        for k in kn: f.write("%s\t%s\t%s\n" % (k["prop"], k["kind"], k["match"]))
    # distribute the workers over the worlds of this property
    ws = cfg["worlds"]; tot = sum(n for _, n in ws); plan = []
    for i in range(jobs):
        x = (i + 0.5) / jobs * tot; 
        for w, n in ws:
            if x < n: plan.append(w); break
            x -= n
    for w, _ in ws:
        if w not in plan and jobs >= len(ws): plan[-1 - [x for x, _ in ws].index(w) % jobs] = w
    procs = []
    for i, w in enumerate(plan):
        s0 = int(hashlib.sha256(("%s/%d/%d" % (prop, seed, i)).encode()).hexdigest()[:12], 16)
        o = work + "/out%d.json" % i; rp = work + "/replay%d.txt" % i
        cmd = [exe, "--world", w, "--prop", prop, "--seed0", str(s0), "--secs", "%g" % secs, "--minisecs", "12" if tier == "quick" else "60",
               "--out", o, "--replay-out", rp, "--known", kf, "--hashes", work + "/h%d" % i]
        procs.append(dict(p=subprocess.Popen(cmd, stdout=open(work + "/log%d" % i, "w"), stderr=subprocess.STDOUT), out=o, rp=rp, w=w, done=False))
    hard = time.time() + secs + 240
    found = None; deadline = None
    while any(not q["done"] for q in procs):
        time.sleep(0.1)
        for q in procs:
            if not q["done"] and q["p"].poll() is not None:
                q["done"] = True
                if q["p"].returncode == 1 and found is None: found = q; deadline = time.time() + 3
        if (deadline and time.time() > deadline) or time.time() > hard:
            for q in procs:
                if not q["done"]: q["p"].kill(); q["p"].wait(); q["done"] = True; q["killed"] = True
    tot = {}; faults = {}; probes = {}; hs = set(); samples = []; swm = None; errs = []; vios = []; knhits = [0] * len(kn); perworld = {}
    for i, q in enumerate(procs):
        try: d = json.load(open(q["out"]))
        except Exception:
            if not q.get("killed"): errs.append("worker %d (%s) gave no result, status %s: %s" % (i, q["w"], q["p"].returncode, open(work + "/log%d" % i, errors="replace").read()[-300:]))
            continue
        for k, v in d.items():
            if isinstance(v, int): tot[k] = tot.get(k, 0) + v
        perworld.setdefault(q["w"], [0, 0]); perworld[q["w"]][0] += d["runs"]; perworld[q["w"]][1] += d["wall_ms"] / 1000
        for k, v in d["faults"].items(): a = faults.setdefault(k, [0, 0]); a[0] += v[0]; a[1] += v[1]
        for k, v in d["probes"].items(): probes[k] = probes.get(k, 0) + v
        for k, v in enumerate(d["known"]): knhits[k] += v
        if d["errmsg"]: errs.append(d["errmsg"][:500])
        m = int(d["swmap"] or "0", 16); swm = m if swm is None else swm | m
        if len(samples) < 4: samples += d["samples"][:1]
        for v in d["vio"]: v["w"] = q["w"]; vios.append(v)
        try: b = open(work + "/h%d" % i, "rb").read(); hs.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except Exception: pass
    rc = 0; confirmed = []
    os.makedirs(VERIF + "/build/replays", exist_ok=True)
    for v in vios:
        r = subprocess.run([exe, "--replay", v["replay"]], stdout=subprocess.PIPE)
        if r.returncode == 1:
            dst = VERIF + "/build/replays/%s-%s.txt" % (prop, v["seed"]); shutil.copy(v["replay"], dst)
            # a message made of the kind and the text; addresses resolved below it
            v["dst"] = dst; confirmed.append(v)
        else: errs.append("replay of seed %s (%s) did not reproduce in a new process: %s" % (v["seed"], v["kind"], r.stdout.decode(errors="replace")[:300]))
    wall = time.time() - t0
    for k, n in zip(kn, knhits):
        print("KNOWN-FINDING: property=%s %s%s" % (prop, k["what"], " (met in %d runs)" % n if n else ""))
    for v in confirmed[:3]:
        print("VIOLATION property=%s replay=%s" % (prop, v["dst"]))
        print("  world=%s seed=%s kind=%s; minimised to %s schedule decisions (of %s), %s faults (of %s), %s operations, in %s attempts" % (v["w"], v["seed"], v["kind"], v["sched"], v["sched0"], v["faults"], v["faults0"], v["ops"], v["tries"]))
        print("  " + v["msg"][:1500])
        for l in symbolise(exe, v["msg"]): print(l)
        rc = 1
    runs = tot.get("runs", 0)
    simh = tot.get("sim_ms", 0) / 3600e3
    cov = dict(evaluations=runs, distinct_nontrivial=len(hs),
               rule=cfg["rule"] + " One evaluation is one simulated run of the whole program under one seed (several process incarnations when crashes are injected); it is non-trivial when at least one preemption or fault happened, and distinct by the hash of its schedule and history.",
               samples=samples, runs_per_hour=int(runs / max(secs, 1) * 3600) if not vios else None, seeds_per_hour=int(runs / max(secs, 1) * 3600) if not vios else None,
               process_incarnations=tot.get("incarnations", 0), operations=tot.get("work", 0), simulated_hours=round(simh, 3),
               scheduling_points=tot.get("sync_steps", 0), memory_access_points=tot.get("mem_steps", 0), context_switches=tot.get("switches", 0), preemptions=tot.get("preempts", 0),
               io_operations=tot.get("io_ops", 0), faults_injected={k: dict(times=v[0], runs=v[1]) for k, v in sorted(faults.items())},
               interleaving_coverage=dict(measure="distinct (code location, code location) context-switch pairs, hashed to 65536 buckets", value=bin(swm or 0).count("1")),
               reached={k: v for k, v in sorted(probes.items()) if v}, per_world={k: dict(runs=v[0], worker_seconds=round(v[1], 1)) for k, v in perworld.items()},
               replayed_for_determinism=tot.get("det_checked", 0), nondeterministic=tot.get("det_bad", 0), harness_errors=len(errs), error_samples=errs[:3],
               known_findings_met=[dict(what=k["what"], runs=n) for k, n in zip(kn, knhits)],
               real_code=cfg["real"], stubs=cfg["stub"], build_seconds=round(tbuild, 1))
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="exploration", coverage=cov, assumptions=props.ASSUME + cfg.get("assume", []), wall_s=round(wall, 2), violations=len(confirmed))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % prop, "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d runs (%d distinct, non-trivial), %d operations, %.1f simulated hours, %d preemptions, faults %s, %d deterministic replays, %.1fs wall" % (
        prop, tier, runs, len(hs), tot.get("work", 0), simh, tot.get("preempts", 0), {k: v[0] for k, v in sorted(faults.items())}, tot.get("det_checked", 0), wall))
    for e in errs[:5]: print("harness note: " + e)
    shutil.rmtree(work, ignore_errors=True)
    if rc == 0 and (runs == 0 or tot.get("errors", 0) > 0.02 * runs + 3 or tot.get("det_bad", 0) > 0.05 * tot.get("det_checked", 0) + 1): rc = 2
    sys.exit(rc)
main()

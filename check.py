#!/usr/bin/env python3
"""check.py PROPERTY: builds the simulator from /repo's working tree, explores
seeded executions of one property and reports.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
exit 2: the check itself failed (no answer)."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS

def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)

class Sim:
    def __init__(self, prop, scratch, flavour="plain"):
        self.prop, self.scratch, self.flavour = prop, scratch, flavour
        self.cfg = PROPS[prop]
        b = os.path.join(scratch, "b." + flavour)
        r = subprocess.run(["bash", os.path.join(HERE, "sim", "build.sh"), b, flavour],
                           capture_output=True, text=True, env=dict(os.environ, REPO=REPO))
        self.bin = os.path.join(b, "simrun")
        if r.returncode or not os.path.exists(self.bin):
            die("building the simulator failed:\n" + (r.stdout + r.stderr)[-3000:])
        self.slow = 1 if flavour == "plain" else 4
        self.cwd = os.path.join(scratch, "cwd")   # an empty working directory
        os.makedirs(self.cwd, exist_ok=True)

    def spawn(self, seed, start, stride, count, cpu):
        return subprocess.Popen([self.bin, "--prop", self.prop, "--seed", str(seed), "--start", str(start),
                                 "--stride", str(stride), "--count", str(count), "--cpu", str(cpu)],
                                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=self.cwd)

    def replay(self, text, cpu=20, timeout=120):
        """Runs one case in a fresh process."""
        f = tempfile.NamedTemporaryFile("w", dir=self.scratch, suffix=".case", delete=False)
        f.write(text); f.close()
        try:
            r = subprocess.run([self.bin, "--prop", self.prop, "--replay", f.name, "--cpu", str(cpu)],
                               capture_output=True, text=True, timeout=timeout, cwd=self.cwd)
            return json.loads(r.stdout.strip().splitlines()[-1])
        except Exception as e:
            return {"verdict": "error", "cls": str(e), "hash": "0", "stats": {}}
        finally:
            os.unlink(f.name)

# ------------------------------------------------------------ minimisation
def renumber(lines, k):
    """Drops statement k and renumbers the others."""
    out = []
    for l in lines:
        ids = [int(x) for x in re.findall(r"\bS_(\d+)\b", l)]
        if k in ids:
            continue
        out.append(re.sub(r"\bS_(\d+)\b", lambda m: "S_%d" % (int(m.group(1)) - (int(m.group(1)) > k)), l))
    return out

def minimise(sim, text, cls, budget=75):
    t0 = time.time()
    lines = text.strip().split("\n")
    def bad(ls):
        if time.time() - t0 > budget:
            return False
        j = sim.replay("\n".join(ls) + "\n", timeout=60)
        return j["verdict"] == "violation" and j["cls"] == cls
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        n = sum(l.startswith("domain ") for l in lines)
        for k in range(n - 1, -1, -1):
            if sum(l.startswith("domain ") for l in lines) < 2:
                break
            c = renumber(lines, k)
            if bad(c):
                lines, changed = c, True
        i = len(lines) - 1
        while i >= 0:
            l = lines[i]
            if not l.startswith(("prop ", "domain ", "sched ", "param ", "api ", "mseed ", "flavour ", "source ")):
                c = lines[:i] + lines[i + 1:]
                if bad(c):
                    lines, changed = c, True
            i -= 1
        for i, l in enumerate(lines):
            m = re.match(r"^(param \w+|reps|prior|allocfail|solverat) (\d+)$", l)
            if m:
                for v in range(1 if m.group(1) == "reps" else 0, int(m.group(2))):
                    c = lines[:i] + ["%s %d" % (m.group(1), v)] + lines[i + 1:]
                    if bad(c):
                        lines, changed = c, True
                        break
                    if time.time() - t0 > budget or v > 12:
                        break
    return "\n".join(lines) + "\n"

def tiny(text):
    """A program for which every call ends within a fraction of a second."""
    d = re.findall(r"^domain .*?S_\d+\[([^\]]*)\]", text, re.M)
    return 0 < len(d) <= 2 and all(q.count(",") < 2 for q in d) and "opt dfp 1" not in text

def known_findings(prop):
    out = []
    for l in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) class=(\S+) case=(\S+) \| (.*)", l)
        if m and m.group(1) == prop:
            out.append({"class": m.group(2), "case": m.group(3), "what": m.group(4)})
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    print("property=%s tier=%s VERIF_SEED=%d" % (prop, tier, seed), flush=True)
    scratch = tempfile.mkdtemp(prefix="plutosim.")
    try:
        rc = explore(prop, tier, seed, cfg, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def collect(procs, on_line, deadline, tick=lambda: False):
    import selectors
    sel = selectors.DefaultSelector()
    live = set()
    for p in procs:
        sel.register(p.stdout, selectors.EVENT_READ, p); live.add(p)
    stop = False
    while live and not stop:
        for key, _ in sel.select(timeout=5):
            l = key.fileobj.readline()
            if not l:
                sel.unregister(key.fileobj); live.discard(key.data); continue
            if on_line(l):
                stop = True; break
        if time.time() > deadline or tick():
            break
    for p in procs:
        if p.poll() is None:
            p.kill()
    for p in procs:
        p.wait()

def explore(prop, tier, seed, cfg, scratch, t0):
    sims = {f: Sim(prop, scratch, f) for f in cfg["runs"]}
    def sim_of(text):
        m = re.search(r"^flavour (\w+)$", text, re.M)
        return sims[m.group(1) if m else "plain"]
    build_s = time.time() - t0
    W = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 8))))
    totals = {f: int(os.environ.get("VERIF_RUNS", n[tier])) for f, n in cfg["runs"].items()}
    total = sum(totals.values())
    deadline = t0 + (600 if tier == "quick" else 6 * 3600)
    cpu = cfg.get("cpu", 4)

    # Recorded findings: replayed, announced, and not counted.
    nknown = 0
    for k in known_findings(prop):
        text = open(os.path.join(HERE, k["case"])).read()
        j = sim_of(text).replay(text)
        if j["verdict"] == "violation" and j["cls"] == k["class"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True); nknown += 1
        elif j["verdict"] == "violation":
            return report(sim_of(text), prop, text, j, seed)

    results, viol = [], []
    bad_lines = [0]
    def on_line(l, f):
        try:
            j = json.loads(l)
        except Exception:
            bad_lines[0] += 1
            return False
        j["flavour"] = f
        results.append(j)
        if j["verdict"] == "violation":
            viol.append(j)
            # A few more: the first may be one that does not replay.
            first_at.append(time.time())
        return len(viol) >= 8 or bool(first_at and time.time() > first_at[0] + 15)
    first_at = []
    for f, sim in sims.items():
        n = totals[f]
        procs = [sim.spawn(seed, k, W, (n - k + W - 1) // W, cpu * sim.slow) for k in range(W)]
        collect(procs, lambda l: on_line(l, f), deadline, lambda: bool(first_at and time.time() > first_at[0] + 15))
        if viol:
            break
    explore_s = time.time() - t0 - build_s

    # Liveness: calls that did not return although the program is tiny.
    if not viol:
        for j in [j for j in results if j["verdict"] == "timeout" and j.get("phase", 0) >= 2
                  and j["flavour"] == "plain" and tiny(j.get("case", ""))][:2]:
            j["case"] = j["case"].rstrip("\n") + "\nhang 1\n"
            h = sims["plain"].replay(j["case"])
            if h["verdict"] == "violation":
                viol.append(dict(j, cls=h["cls"], hash=h["hash"]))
                break

    # Determinism: a sample of the runs again, in other processes and with
    # another distribution over workers.
    ndet, mism = 0, []
    if not viol:
        first = {(j["flavour"], j["idx"]): j for j in results}
        again = []
        for f, sim in sims.items():
            nd = min(totals[f], 64 if tier == "quick" else 512)
            p2 = [sim.spawn(seed, k, 3, (nd - k + 2) // 3, cpu * sim.slow) for k in range(3)]
            collect(p2, lambda l: (again.append(dict(json.loads(l), flavour=f)), False)[1], time.time() + 300)
        for j in again:
            a = first.get((j["flavour"], j["idx"]))
            if a is None or "timeout" in (a["verdict"], j["verdict"]):
                continue
            ndet += 1
            if (a["verdict"], a["cls"], a["hash"], a["stats"]) != (j["verdict"], j["cls"], j["hash"], j["stats"]):
                mism.append(j["idx"])
        if mism:
            die("run is not deterministic: idx %s" % mism[:5])

    rc = 0
    if viol:
        for v in sorted(viol, key=lambda j: j["idx"]):
            rc = report(sims[v["flavour"]], prop, v["case"], v, seed)
            if rc == 1:
                break
        if rc == 2:
            return 2
    if not results or (not viol and len(results) < total and time.time() < deadline):
        die("workers ended early: %d of %d runs" % (len(results), total))
    write_evidence(prop, tier, seed, cfg, results, viol, t0, build_s, explore_s, ndet, nknown, sims)
    if rc == 0:
        n = sum(j["verdict"] == "ok" for j in results)
        floor = cfg.get("floor", 0.5)
        if n < floor * len(results):
            die("only %d of %d runs could be judged" % (n, len(results)))
        print("%s: held on %d runs (%d judged) in %.0f s" % (prop, len(results), n, time.time() - t0))
    return rc

def report(sim, prop, text, j, seed):
    # Gate: the same run twice, in fresh processes, must violate identically.
    a, b = sim.replay(text), sim.replay(text)
    if not (a["verdict"] == b["verdict"] == "violation" and a["cls"] == b["cls"] == j["cls"] and a["hash"] == b["hash"]):
        print("ERROR: violation did not replay: %s / %s / %s" % (j, a, b))
        return 2
    if sim.flavour != "plain" and "\nflavour " not in text:
        text = text.rstrip("\n") + "\nflavour %s\n" % sim.flavour
    small = minimise(sim, text, j["cls"])
    c, d = sim.replay(small), sim.replay(small)
    if not (c["verdict"] == d["verdict"] == "violation" and c["hash"] == d["hash"]):
        small, c = text, a
    out = os.path.join(HERE, "replays")
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, "%s-%s.case" % (prop, hashlib.sha1(small.encode()).hexdigest()[:10]))
    head = "# property %s, class %s, VERIF_SEED=%d run %s; replay: ./replay.sh %s\n" % (
        prop, c["cls"], seed, j.get("idx"), path)
    det = "".join("# %s\n" % l for l in c.get("detail", "").split("\n"))
    open(path, "w").write(head + det + small)
    print("violated (%s): %s" % (c["cls"], c.get("detail", "")[:1500]))
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return 1

def write_evidence(prop, tier, seed, cfg, results, viol, t0, build_s, explore_s, ndet, nknown, sims):
    tot, verd, hashes = {}, {}, set()
    nontrivial = cfg["nontrivial"]
    for j in results:
        verd[j["verdict"]] = verd.get(j["verdict"], 0) + 1
        for k, v in j["stats"].items():
            tot[k] = tot.get(k, 0) + v
        if j["verdict"] in ("ok", "violation") and any(v > 0 and k.startswith(tuple(nontrivial)) for k, v in j["stats"].items()):
            hashes.add(j["hash"])
    samples = []
    for j in results:
        if j["verdict"] == "ok" and any(v > 0 and k.startswith(tuple(nontrivial)) for k, v in j["stats"].items()):
            sim = sims[j["flavour"]]
            r = subprocess.run([sim.bin, "--prop", prop, "--seed", str(seed), "--start", str(j["idx"]), "--count", "1", "--dump"],
                               capture_output=True, text=True, cwd=sim.cwd)
            try:
                samples.append({"run": j["idx"], "case": json.loads(r.stdout)["case"].split("\n"), "history_hash": j["hash"]})
            except Exception:
                pass
            if len(samples) == 2:
                break
    n = len(results)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "wall_s": round(time.time() - t0, 1),
          "violations": len(viol),
          "coverage": {
              "evaluations": n, "distinct_nontrivial": len(hashes), "rule": cfg["rule"], "samples": samples,
              "verdicts": verd, "runs_per_flavour": {f: sum(j["flavour"] == f for j in results) for f in sims}, "runs_per_hour": int(n / max(explore_s, 1e-3) * 3600),
              "simulated_steps": tot.get("machine_steps", 0), "machine_executions": tot.get("machine_runs", 0),
              "faults_fired": {k: v for k, v in sorted(tot.items()) if k.startswith("fault.")},
              "probes": {k: v for k, v in sorted(tot.items()) if not k.startswith("fault.")},
              "determinism_reruns": ndet, "known_findings_replayed": nknown, "build_s": round(build_s, 1),
              "real_code": cfg["real"], "stubs": cfg["stubs"]},
          "assumptions": cfg["assumptions"]}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + ".json"), "w"), indent=1)

main()

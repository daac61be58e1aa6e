#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

  check.py ID [--tier quick|thorough] [--seed N] [--case K[,K..]] [--keep]

exit 0: held on everything explored; 1: violated (VIOLATION lines); 2: no verdict.
"""
import json, os, sys, subprocess, tempfile, shutil, time, signal, argparse, glob, re, hashlib, collections

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
T0 = time.time()

ap = argparse.ArgumentParser()
ap.add_argument("id")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=None)
ap.add_argument("--case", default=None)
ap.add_argument("--lib", default=None, help="use this library (already built) instead of building")
ap.add_argument("--jobs", type=int, default=None)
ap.add_argument("--keep", action="store_true")
a = ap.parse_args()
if a.tier not in ("quick", "thorough"): a.tier = "quick"
if a.seed is None:
    try: a.seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: a.seed = 1
seed32 = a.seed % 1000003
PROP = a.id
META = json.load(open(os.path.join(ROOT, "props", "meta.json")))
if PROP not in META: sys.exit("unknown property " + PROP)
meta = META[PROP]
JOBS = a.jobs or min(8, os.cpu_count() or 1)
QUICK = a.tier == "quick"
DEADLINE = T0 + (760 if QUICK else 5400)
CASE_LIMIT = 150 if QUICK else 900      # seconds without progress

work = tempfile.mkdtemp(prefix="verif-%s-" % PROP, dir=os.environ.get("TMPDIR", "/tmp"))
procs = []
def cleanup():
    for p in procs:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
    if not a.keep: shutil.rmtree(work, ignore_errors=True)
def die(code, msg=None):
    if msg: print(msg, flush=True)
    cleanup(); sys.exit(code)
signal.signal(signal.SIGTERM, lambda *_: die(2, "terminated"))

def clean_env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR", "USER")}
    e.setdefault("HOME", "/root")
    e.update(LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC", R_LIBS_USER="NULL", R_ENVIRON_USER="", R_PROFILE_USER="",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OMP_THREAD_LIMIT="1", VERIF_ROOT=ROOT, VERIF_REPO=REPO,
             VERIF_TIER=a.tier, VERIF_SEED=str(a.seed))
    return e

def build(mode):
    out = os.path.join(work, "build-" + mode)
    if a.lib and mode == "plain": return a.lib
    if os.path.exists(os.path.join(out, "built")): return os.path.join(out, "lib")
    r = subprocess.run([os.path.join(ROOT, "lib", "build.sh"), out, mode], env=dict(clean_env(), VERIF_COLD=os.environ.get("VERIF_COLD", "0")),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:]); die(2, "the package could not be built from %s" % REPO)
    open(os.path.join(out, "built"), "w").close()
    return os.path.join(out, "lib")

def gcc_lib(name):
    return subprocess.run(["gcc", "-print-file-name=" + name], stdout=subprocess.PIPE, text=True).stdout.strip()

class Worker:
    """one R process running a list of cases of one phase"""
    n = 0
    def __init__(self, phase, lib, shard, nshards, cases=None, solo=False):
        Worker.n += 1
        self.phase, self.lib, self.shard, self.nshards, self.cases, self.solo = phase, lib, shard, nshards, cases, solo
        self.out = os.path.join(work, "w%d.jsonl" % Worker.n); self.err = os.path.join(work, "w%d.err" % Worker.n)
        self.cwd = os.path.join(work, "cwd%d" % Worker.n); os.makedirs(self.cwd)
        open(self.out, "w").close()
        env = clean_env(); env["R_LIBS"] = lib
        for k, v in phase.get("env", {}).items(): env[k] = v
        cmd = ["Rscript", "--no-init-file", os.path.join(ROOT, "lib", "run.R"), PROP, a.tier, str(seed32), str(shard), str(nshards), self.out]
        if phase["mode"] == "asan":
            env["LD_PRELOAD"] = gcc_lib("libasan.so") + ":" + gcc_lib("libubsan.so")
            env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_segv=1:strict_init_order=1"
            env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
        if phase.get("valgrind"):
            cmd = ["R", "-d", "valgrind " + phase["valgrind"], "--vanilla", "--no-echo", "-f", os.path.join(ROOT, "lib", "run.R"), "--args"] + cmd[3:]
            env["VALGRIND_LIB_LOG"] = "1"
        if cases is not None: cmd.append(",".join(map(str, cases)))
        env["VERIF_PHASE"] = phase["name"]
        self.p = subprocess.Popen(cmd, cwd=self.cwd, env=env, stdin=subprocess.DEVNULL, stdout=open(self.err + ".o", "w"),
                                  stderr=open(self.err, "w"), start_new_session=True)
        procs.append(self.p)
        self.pos = 0; self.begun = None; self.plan = None; self.done = False; self.finished = set(); self.last = time.time(); self.buf = ""; self.early = []
    def poll(self):
        """returns new records"""
        recs = []
        with open(self.out, encoding="utf-8", errors="replace") as f:
            f.seek(self.pos); data = f.read(); self.pos = f.tell()
        if data: self.last = time.time()
        self.buf += data
        while "\n" in self.buf:
            line, self.buf = self.buf.split("\n", 1)
            try: r = json.loads(line)
            except ValueError: continue
            if r["t"] == "plan": self.plan = r
            elif r["t"] == "begin": self.begun = r["case"]; self.early = []
            elif r["t"] == "viol": self.early.append(r)
            elif r["t"] == "end": self.finished.add(r["case"]); self.begun = None; recs.append(r)
            elif r["t"] == "done": self.done = True
        return recs
    def kill(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except OSError: pass
        self.p.wait()
    def tail(self):
        t = ""
        for f in (self.err, self.err + ".o"):
            try: t += open(f, errors="replace").read()
            except OSError: pass
        m = re.search(r"(runtime error:|ERROR: AddressSanitizer|Assertion|assertion|terminate called|caught segfault|Invalid read|uninitialised)", t)
        if m: s = max(0, t.rfind("\n", 0, m.start())); return t[s:s + 2500]
        return t[-1500:]

ends = {}            # (phase, case) -> record
inconclusive = []
viols = []           # dicts: key, msg, case, phase
total = {}
def add_viol(key, msg, case, phase): viols.append(dict(key=key, msg=msg, case=case, phase=phase))

def run_phase(phase):
    lib = build(phase["mode"])
    nsh = 1 if a.case else JOBS
    cases = [int(c) for c in a.case.split(",")] if a.case else None
    live = [Worker(phase, lib, s, nsh, cases) for s in range(nsh)]
    while live:
        time.sleep(0.1)
        for w in list(live):
            ended = w.p.poll() is not None      # looked at before the file is read
            for r in w.poll():
                ends[(phase["name"], r["case"])] = r
                for v in r["viol"]: add_viol(v["key"], v["msg"], r["case"], phase["name"])
            if w.plan: total[phase["name"]] = w.plan["total"]
            hang = (not ended) and time.time() - w.last > (20 if w.early else CASE_LIMIT) * phase.get("slow", 1)
            if hang: w.kill(); ended = True
            if not ended: continue
            live.remove(w)
            if w.done: continue
            what = "hang" if hang else "crash"
            if w.plan is None or w.begun is None:
                # no case was running: the harness, or loading the package, failed
                if w.solo: inconclusive.append("worker failed: " + w.tail()[-300:]); continue
                print("worker failed before a case:", w.tail()[-2000:], flush=True)
                w2 = Worker(phase, lib, w.shard, w.nshards, w.cases, solo=True); live.append(w2); continue
            c = w.begun
            if w.early:     # it had seen a violation already
                for v in w.early: add_viol(v["key"], v["msg"] + " (then: %s)" % what, c, phase["name"])
                allc = w.cases if w.cases is not None else [i for i in range(1, w.plan["total"] + 1) if (i - 1) % w.nshards == w.shard]
                rest = [i for i in allc if i not in w.finished and i != c]
                if rest and not w.solo: live.append(Worker(phase, lib, w.shard, w.nshards, rest))
            elif w.solo:      # second time: it is real
                add_viol(what, "%s, twice, while running the case: %s" % (what, w.tail()), c, phase["name"])
            else:
                print("%s in case %d (%s); running it again alone" % (what, c, phase["name"]), flush=True)
                live.append(Worker(phase, lib, 0, 1, [c], solo=True))
                allc = w.cases if w.cases is not None else [i for i in range(1, w.plan["total"] + 1) if (i - 1) % w.nshards == w.shard]
                rest = [i for i in allc if i not in w.finished and i != c]
                if rest: live.append(Worker(phase, lib, w.shard, w.nshards, rest))
        if len(viols) >= 12 and QUICK:
            for w in live: w.kill()
            return
        if QUICK and viols and time.time() > T0 + 400:   # enough has been seen
            for w in live: w.kill()
            inconclusive.append("stopped early, as a violation had been seen"); return
        if time.time() > DEADLINE:
            for w in live:
                w.kill()
                if w.begun is not None:
                    for v in w.early: add_viol(v["key"], v["msg"] + " (then stopped at the time limit)", w.begun, phase["name"])
            inconclusive.append("stopped at the time limit, in phase " + phase["name"]); return

for ph in meta.get("phases", [{"name": "plain", "mode": "plain"}]):
    if ph.get("tier") and ph["tier"] != a.tier: continue
    run_phase(ph)
    if len(viols) >= 12: break

# the same case must give the same results in each phase
if meta.get("compare"):
    by = collections.defaultdict(dict)
    vgp = {p["name"] for p in meta.get("phases", []) if p.get("valgrind")}
    for (ph, c), r in ends.items():
        if ph not in vgp and r["skip"] is None: by[c][ph] = r["sample"]
    for c, d in by.items():
        if len(set(d.values())) > 1:
            ks = list(d); o = next(k for k in ks if d[k] != d[ks[0]])
            x, y = d[ks[0]].split("; "), d[o].split("; ")
            j = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), 0)
            add_viol("phases-differ", "results differ: %s in %s <> %s in %s (%s)" % (x[j][:200], ks[0], y[j][:200], o, x[0][:200]), c, "all")

# known findings
known = []
kf = os.path.join(ROOT, "known_findings.txt")
for line in open(kf) if os.path.exists(kf) else []:
    m = re.match(r"known: property=(\S+) \| key=(.*?) \| match=(.*?) \| (.*)$", line.strip())
    if m and m.group(1) == PROP: known.append(m.groups()[1:])
new, hit = [], collections.OrderedDict()
for v in viols:
    k = next((k for k in known if k[0] == v["key"] and k[1] in v["msg"]), None)
    if k: hit[k] = True
    else: new.append(v)

run = [r for r in ends.values()]
act = [r for r in run if r["skip"] is None]
skips = collections.Counter(re.sub(r"[\d.]+", "#", r["skip"])[:80] for r in run if r["skip"] is not None)
evals = sum(r["evals"] for r in run)
classes = collections.Counter(c for r in act for c in r["classes"])
distinct = len({hashlib.sha1(r["sample"].encode()).hexdigest() for r in act if r["evals"] > 0 and r["sample"]})
margins = {}
for r in act:
    for k, s in r["stats"].items(): margins[k] = max(margins.get(k, 0), s)
if run and not a.case and len(act) < 0.5 * len(run) and not new:
    new.append(dict(key="too-many-skips", case=0, phase="all",
                    msg="%d of %d cases could not be evaluated: %s" % (len(run) - len(act), len(run), dict(skips))))

if not a.case:
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    samples = [r["sample"] for r in sorted(act, key=lambda r: r["case"]) if r["sample"]]
    step = max(1, len(samples) // 6)
    ev = dict(property=PROP, tier=a.tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct, rule=meta["rule"], samples=samples[::step][:8] or ["none"],
                            cases_planned=total, cases_run=len(run), cases_skipped=dict(skips), classes=dict(classes),
                            largest_deviation_over_tolerance={k: round(v, 4) for k, v in sorted(margins.items())},
                            inconclusive=inconclusive, phases=[p["name"] for p in meta.get("phases", [{"name": "plain"}])]),
              assumptions=meta.get("assumptions", []), wall_s=round(time.time() - T0, 2), violations=len(new))
    with open(os.path.join(ROOT, "evidence", PROP + ".json"), "w") as f: json.dump(ev, f, indent=1)

for k in hit: print("KNOWN-FINDING: property=%s %s" % (PROP, k[2]))
if new:
    rd = os.path.join(ROOT, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
    seen = set()
    for v in new:
        if v["key"] in seen and len(seen) > 0: continue
        seen.add(v["key"])
        path = os.path.join(rd, "%s-%s-%s.json" % (PROP, re.sub(r"[^A-Za-z0-9]+", "_", v["key"])[:40], v["case"]))
        with open(path, "w") as f:
            json.dump(dict(property=PROP, key=v["key"], case=v["case"], phase=v["phase"], seed=a.seed, tier=a.tier, message=v["msg"],
                           replay="VERIF_SEED=%d VERIF_TIER=%s %s/check %s --case %s" % (a.seed, a.tier, ROOT, PROP, v["case"])), f, indent=1)
        print("  [%s] case %s: %s" % (v["key"], v["case"], v["msg"][:700]))
        print("VIOLATION property=%s replay=%s" % (PROP, path))
        if len(seen) >= 5: break
    die(1)
if evals == 0: die(2, "nothing was observed: " + "; ".join(inconclusive)[:1500])
if inconclusive and len(act) < 0.5 * (sum(total.values()) or 1): die(2, "inconclusive: " + "; ".join(inconclusive)[:1500])
print("OK property=%s tier=%s seed=%d cases=%d skipped=%d evaluations=%d distinct=%d wall=%.0fs worst=%s%s" % (
    PROP, a.tier, a.seed, len(run), len(run) - len(act), evals, distinct, time.time() - T0,
    json.dumps(sorted(((round(v, 3), k) for k, v in margins.items()), reverse=True)[:4]), (" inconclusive: %s" % inconclusive) if inconclusive else ""))
die(0)

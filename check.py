#!/usr/bin/env python3
"""check.py ID            decide property ID on /repo's working tree
check.py --replay FILE    execute a replay file again
check.py --soak SECS [PROFILE...]  every property (development)

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough), SIM_SECS
(overrides the time budget), SIM_WORKERS (default: number of CPUs, at most 8).
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself could not be carried out.
"""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import simbuild

LEVEL = "exploration"
# property -> profiles with weights
PROFILES = {
    "C01": "failover:8,deadline:1,cli:1",
    "C02": "failover:7,deadline:1,bootstrap:1,cli:1",
    "C03": "deadline:8,failover:1,cli:1",
    "C04": "bootstrap:6,crash:3,deadline:1",
    "C05": "bootstrap:7,failover:1,crash:2",
    "C06": "bootstrap:6,crash:3,deadline:1",
    "C07": "crash:7,cache:3",
    "C08": "bootstrap:7,crash:2,cache:1",
    "C09": "bootstrap:7,failover:1,crash:2",
    "C10": "bootstrap:5,failover:4,cli:1",
    "C11": "failover:6,bootstrap:3,deadline:1",
    "C12": "failover:5,deadline:3,bootstrap:2",
    "C13": "cli:9,deadline:1",
    "C14": "cli:3,byzantine:2",
    "C15": "cli:9,failover:1",
    "C16": "cli:1",
    "C18": "cache:1",
    "C19": "failover:4,cli:2,bootstrap:3,crash:1",
    "C20": "byzantine:1",
    "C21": "requests:1",
    "C22": "requests:1",
    "C23": "byzantine:1",
    "C24": "byzantine:1",
}
QUICK_SECS = 40
THOROUGH_SECS = 600

COMPONENTS = {
    "real code": [
        "openrdap/rdap from /repo's working tree, unmodified: client, bootstrap client and registries, memory and disk cache, decoder, printer, CLI (RunCLI), sandbox",
        "Go net/http client and server, crypto/tls, encoding/json, context, time (running on the simulated clock), os, kingpin, go-homedir, pkcs12",
        "the file system below the syscall seam (a scratch directory)",
    ],
    "simulated": [
        "scheduler: one goroutine runs at a time, seeded choice at every seam (file system call, dial, network read and write, timer, contended mutex)",
        "clock: testing/synctest-style bubble time, only advanced when nothing can run",
        "network: in-memory connections, seeded delay, fragmentation, stall, refusal, reset, truncation",
        "disk faults and crashes at the syscall seam: errors, short reads and writes, full disk, kill at any call, power loss",
        "random numbers of the runtime (select, maps, temp names)",
    ],
    "stub": [
        "bootstrap services and RDAP servers: net/http servers with generated documents and answers",
        "DNS: host names are dialled by name",
        "processes: groups of goroutines which share nothing but the cache directory",
    ],
}


def say(*a):
    print(*a, flush=True)


class Scratch:
    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="rdapsim-", dir=base)

    def sub(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        return d

    def close(self):
        if os.path.basename(self.dir).startswith("rdapsim-"):
            shutil.rmtree(self.dir, ignore_errors=True)


class Worker:
    """One simulator process, its messages and its health."""

    def __init__(self, argv, root):
        self.root = root
        self.viol, self.diverged, self.done, self.err = [], [], None, b""
        self.beat = time.time()
        self.errf = open(os.path.join(root, "stderr"), "wb")
        self.p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=self.errf,
                                  env=child_env(), start_new_session=True)
        self.t = threading.Thread(target=self.read, daemon=True)
        self.t.start()

    def read(self):
        for line in self.p.stdout:
            self.beat = time.time()
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d["t"] == "viol":
                self.viol.append(d)
            elif d["t"] == "diverged":
                self.diverged.append(d)
            elif d["t"] == "done":
                self.done = d

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def stderr(self):
        with open(os.path.join(self.root, "stderr"), "rb") as f:
            return f.read().decode(errors="replace")

    def current(self):
        try:
            with open(os.path.join(self.root, "current")) as f:
                a = f.read().split()
            return a[0], a[1]
        except (OSError, IndexError):
            return None


def child_env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "SIM_DEBUG")}
    e["GORACE"] = "halt_on_error=1 exitcode=66"
    e["GOTRACEBACK"] = "all"
    return e


def workers_n():
    n = int(os.environ.get("SIM_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    return max(1, n)


HANG = 120  # s without a heartbeat (runs take milliseconds)


def search(binp, scratch, profiles, prop, seed, secs, runs=None):
    """Runs the workers until a violation of prop, a failure or the end of the budget."""
    n = workers_n()
    ws = []
    for i in range(n):
        root = scratch.sub("w%d" % i)
        argv = [binp, "run", "-root", root, "-profiles", profiles, "-seed", str(seed), "-worker", str(i),
                "-workers", str(n), "-secs", str(secs), "-prop", prop]
        if runs:
            argv += ["-runs", str(runs)]
        ws.append(Worker(argv, root))
    hung = []
    found_at = None
    while True:
        alive = [w for w in ws if w.p.poll() is None]
        if not alive:
            break
        for w in alive:
            if time.time() - w.beat > HANG:
                hung.append(w)
                w.kill()
        if prop and any(w.viol for w in ws):
            found_at = found_at or time.time()
            if time.time() - found_at > 3:
                for w in alive:
                    w.kill()
                break
        time.sleep(0.1)
    for w in ws:
        w.t.join(5)
    crashed = []
    for w in ws:
        if w in hung or w.done is not None or w.viol:
            continue
        if found_at and w.p.returncode == -signal.SIGKILL:
            continue
        crashed.append(w)
    return ws, crashed, hung


def run_one(binp, root, profile, runseed, timeout=HANG):
    """Executes one seed in a fresh process; returns (exit code or None if it hangs, output)."""
    p = subprocess.Popen([binp, "one", "-root", root, "-profile", profile, "-runseed", runseed, "-trace"], stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=child_env(), start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out.decode(errors="replace")


def known_findings():
    """Findings which were recorded instead of repaired."""
    l = []
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m:
                l.append({"property": m.group(1), "class": m.group(2), "re": re.compile(m.group(3)), "what": m.group(4)})
    return l


def is_known(prop, cls, msg, findings):
    for f in findings:
        if f["property"] == prop and f["class"] == cls and f["re"].search(msg):
            return f
    return None


def out_path(prop, cls, seed):
    d = os.path.join(VERIF, "out")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9]+", "-", cls), seed))


def confirm(binp, scratch, prop, v, secs):
    """Minimises a violation and replays it in a fresh process."""
    path = out_path(prop, v["class"], v["seed"])
    root = scratch.sub("shrink")
    for attempt in range(3):
        p = subprocess.run([binp, "shrink", "-root", root, "-profile", v["profile"], "-runseed", v["seed"], "-prop", prop,
                            "-class", v["class"], "-secs", str(secs if attempt == 0 else 0), "-out", path],
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=child_env(), timeout=secs + 240)
        if p.returncode != 0:
            continue
        for _ in range(2):
            rc, identical, _ = replay(binp, scratch, path)
            if rc == 1:
                return path, identical
    return None, False


def replay(binp, scratch, path):
    root = scratch.sub("replay")
    with open(path) as f:
        rep = json.load(f)
    if rep.get("kind") == "process":
        rc, out = run_one(binp, root, rep["profile"], rep["seed"])
        bad = rc is None or rc not in (0, 1)
        return (1 if bad else 0), bad, out
    p = subprocess.run([binp, "replay", "-root", root, path], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=child_env(), timeout=600)
    out = p.stdout.decode(errors="replace")
    if p.returncode not in (0, 1):
        out += p.stderr.decode(errors="replace")[-3000:]
    return p.returncode, "identical execution" in out, out


def confirm_process(binp, scratch, prop, w, why):
    """A worker died or hung: does the seed do it again in a fresh process?"""
    cur = w.current()
    if not cur:
        return None
    profile, seed = cur
    rc, out = run_one(binp, scratch.sub("again"), profile, seed)
    if rc in (0, 1):
        return None
    if rc is not None:
        # The stack of the failing goroutine: is the repository's code in it?
        stack = out[out.find("[running"):].split("\n\n")[0] if "[running" in out else out
        if "openrdap/rdap" not in stack:
            return None
    cls = "process-hang" if rc is None else "process-crash"
    path = out_path(prop, cls, seed)
    with open(path, "w") as f:
        json.dump({"property": prop, "class": cls, "kind": "process", "profile": profile, "seed": seed,
                   "message": "the process %s" % ("makes no progress" if rc is None else "dies (exit status %s)" % rc),
                   "trace": out.splitlines()[-200:]}, f, indent=1)
        f.write("\n")
    return path


def merge(ws, key):
    tot = {}
    for w in ws:
        if w.done:
            for k, n in (w.done["stats"].get(key) or {}).items():
                tot[k] = tot.get(k, 0) + n
    return dict(sorted(tot.items()))


def total(ws, f):
    return sum(f(w.done) for w in ws if w.done)


def distinct(ws):
    s = set()
    for w in ws:
        try:
            with open(os.path.join(w.root, "hashes"), "rb") as f:
                b = f.read()
            s.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
        except OSError:
            pass
    return len(s)


def evidence(prop, tier, seed, ws, t0, search_s, violations, profiles, extra):
    runs = total(ws, lambda d: d["stats"]["runs"])
    samples = [x for w in ws if w.done for x in (w.done.get("samples") or [])][:4]
    if not samples:
        samples = extra.pop("samples", []) or [{"note": "stopped at the first violation"}]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": distinct(ws),
        "rule": "one evaluation is one simulated run: processes, operations, documents, replies, delays, schedule and faults are all drawn from "
                "the run's seed. Non-trivial: at least one fault was injected or the scheduler preempted a task, and the oracle of this property "
                "was evaluated in it. Distinct: by the 64-bit hash over the run's whole event sequence (scheduling decisions, file system calls, "
                "network events with their simulated times, results).",
        "samples": samples,
        "profiles": {k: sum(w.done["profiles"].get(k, 0) for w in ws if w.done) for k in sorted({k for w in ws if w.done for k in w.done["profiles"]})},
        "oracle_evaluations": merge(ws, "checks").get(prop, 0),
        "operations": merge(ws, "ops"),
        "faults_injected": merge(ws, "faults"),
        "distinct_executions_all": total(ws, lambda d: d.get("distinct", 0)),
        "distinct_states_per_run_summed": total(ws, lambda d: d.get("states", 0)),
        "scheduling_steps": total(ws, lambda d: d["stats"]["steps"]),
        "preemptions": total(ws, lambda d: d["stats"]["switches"]),
        "http_requests_served": total(ws, lambda d: d["stats"]["requests"]),
        "cache_probes_after_crash_points": total(ws, lambda d: d["stats"]["probes"]),
        "contended_mutexes": total(ws, lambda d: d["stats"]["lock_waits"]),
        "simulated_hours": round(total(ws, lambda d: d["stats"]["sim_ns"]) / 3.6e12, 1),
        "runs_per_hour": int(runs / search_s * 3600) if search_s > 0 else 0,
        "seeds_per_hour": int(runs / search_s * 3600) if search_s > 0 else 0,
        "determinism": {"runs_executed_twice": total(ws, lambda d: d["rechecks"]), "diverged": total(ws, lambda d: d["diverged"])},
        "components": COMPONENTS,
        "workers": len(ws),
        "profile_weights": profiles,
    }
    cov.update(extra)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov,
        "assumptions": [
            "the simulated network, disk and clock behave like real ones where the library can tell",
            "processes are simulated by goroutines; memory is not shared between them but for the Go runtime and standard library",
            "interleavings are explored at the granularity of seams: file system call, network operation, timer, contended mutex",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": violations,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, prop + ".json"))


def decide(prop, tier, seed, t0, binp, scratch):
    secs = float(os.environ.get("SIM_SECS", THOROUGH_SECS if tier == "thorough" else QUICK_SECS))
    profiles = PROFILES[prop]
    findings = [f for f in known_findings() if f["property"] == prop]
    s0 = time.time()
    ws, crashed, hung = search(binp, scratch, profiles, prop, seed, secs)
    search_s = time.time() - s0
    extra = {"unconfirmed": []}
    violations = 0
    result = None
    for f in findings:
        say("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    shrink_secs = 60 if tier == "thorough" else 25
    tried = set()
    vs = sorted([v for w in ws for v in w.viol], key=lambda v: (v["class"], len(v["msg"])))
    for v in vs:
        if is_known(prop, v["class"], v["msg"], findings):
            continue
        if len(tried) >= 4:
            break
        tried.add((v["class"], v["seed"]))
        path, identical = confirm(binp, scratch, prop, v, shrink_secs)
        if path is None:
            extra["unconfirmed"].append({"class": v["class"], "seed": v["seed"], "profile": v["profile"], "message": v["msg"][:500]})
            continue
        violations += 1
        with open(path) as f:
            rep = json.load(f)
        extra["violation"] = {"class": rep["class"], "message": rep["message"][:2000], "minimisation": rep.get("minimisation", ""), "identical_on_replay": identical}
        say("%s: %s" % (rep["class"], rep["message"]))
        say("seed %s, profile %s, %s" % (rep["seed"], rep["profile"], rep.get("minimisation", "")))
        result = path
        break
    if result is None:
        for w in hung + crashed:
            path = confirm_process(binp, scratch, prop, w, "")
            if path:
                violations += 1
                result = path
                with open(path) as f:
                    rep = json.load(f)
                say("%s: %s (seed %s, profile %s)" % (rep["class"], rep["message"], rep["seed"], rep["profile"]))
                break
    evidence(prop, tier, seed, ws, t0, search_s, violations, profiles, extra)
    if result:
        say("VIOLATION property=%s replay=%s" % (prop, result))
        return 1
    if crashed and not any(w.done for w in ws):
        sys.stderr.write(crashed[0].stderr()[-4000:] + "\n")
        sys.stderr.write("the simulator fails, though no single run does\n")
        return 2
    for w in crashed:
        sys.stderr.write("a worker failed without repeating it: %s\n" % w.stderr()[:1500])
    runs = total(ws, lambda d: d["stats"]["runs"])
    say("property %s held in %d simulated runs (%d workers, seed %d, %.0f s)" % (prop, runs, len(ws), seed, time.time() - t0))
    return 0


def main():
    t0 = time.time()
    if len(sys.argv) < 2:
        sys.stderr.write(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    arg = sys.argv[1]
    scratch = Scratch()
    try:
        if arg == "--replay":
            path = sys.argv[2]
            with open(path) as f:
                rep = json.load(f)
            if rep["property"] == "C17":
                import conc
                return conc.replay(path, scratch)
            rc, identical, out = replay(simbuild.build(), scratch, path)
            say(out)
            if rc == 1:
                say("VIOLATION property=%s replay=%s" % (rep["property"], path))
            return rc
        if arg == "--soak":
            return soak(float(sys.argv[2]), seed, scratch)
        if arg == "C17":
            import conc
            return conc.decide(tier, seed, t0, scratch)
        if arg not in PROFILES:
            sys.stderr.write("unknown property %s\n" % arg)
            return 2
        return decide(arg, tier, seed, t0, simbuild.build(), scratch)
    except simbuild.PatchError as e:
        sys.stderr.write(str(e) + "\n")
        return 2
    finally:
        scratch.close()


def soak(secs, seed, scratch):
    binp = simbuild.build()
    bad = 0
    for p in sys.argv[3:] or ("failover", "deadline", "bootstrap", "crash", "cli", "cache", "byzantine", "requests"):
        ws, crashed, hung = search(binp, scratch, p, "", seed, secs)
        seen = {}
        for w in ws:
            for v in w.viol:
                seen.setdefault((v["class"], tuple(v["props"])), []).append(v)
        say("%s: %d runs, %d rechecks, %d diverged, %d crashed, %d hung, %d kinds of violation" % (
            p, total(ws, lambda d: d["stats"]["runs"]), total(ws, lambda d: d["rechecks"]), total(ws, lambda d: d["diverged"]),
            len(crashed), len(hung), len(seen)))
        for w in ws:
            for d in w.diverged:
                say("  diverged: %s seed %s" % (d["profile"], d["seed"]))
        for w in crashed:
            say("  crash:", w.current(), w.stderr()[:1500])
        for k, l in sorted(seen.items()):
            bad += 1
            say("  %d x %s %s seed %s: %s" % (len(l), k[0], " ".join(k[1]), l[0]["seed"], l[0]["msg"][:400]))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())

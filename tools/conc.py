"""C17: independent operations under a seeded statement-level scheduler with the race detector."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import simbuild

RUN_TIMEOUT = 120


def env():
    return {"PATH": os.environ.get("PATH", "/usr/bin:/bin"),
            "GORACE": "atexit_sleep_ms=0 halt_on_error=0 exitcode=66 history_size=3", "GOTRACEBACK": "all"}


class Conc:
    def __init__(self, scratch):
        self.scratch = scratch
        self.bin = simbuild.build("simc")
        self.certs = scratch.sub("certs")
        self.cmd([self.bin, "-gencerts", "-certs", self.certs])
        self.n = 0
        self.lock = threading.Lock()

    def cmd(self, argv, timeout=RUN_TIMEOUT):
        """Returns (exit status or None, stdout, stderr)."""
        try:
            p = subprocess.run(argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), timeout=timeout)
        except subprocess.TimeoutExpired as e:
            return None, "", (e.stderr or b"").decode(errors="replace")
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")

    def dir(self):
        with self.lock:
            self.n += 1
            d = self.scratch.sub("c%d" % self.n)
        return d

    def references(self, workers):
        """The result of each operation when it runs alone, in a process of its own."""
        rc, out, err = self.cmd([self.bin, "-list", "-certs", self.certs])
        if rc != 0:
            raise simbuild.PatchError("list: " + err)
        keys = out.split("\n")[:-1]

        def one(k):
            res = []
            for _ in range(2):
                d = self.dir()
                rc, out, err = self.cmd([self.bin, "-alone", k, "-dir", d, "-certs", self.certs])
                shutil.rmtree(d, ignore_errors=True)
                if rc == 0:
                    res.append(json.loads(out))
            return k, res
        ref, unstable = {}, []
        with cf.ThreadPoolExecutor(workers) as ex:
            for k, res in ex.map(one, keys):
                if len(res) == 2 and res[0] == res[1]:
                    ref[k] = res[0]
                else:
                    unstable.append(k)
        self.ref = os.path.join(self.scratch.dir, "ref.json")
        with open(self.ref, "w") as f:
            json.dump(ref, f)
        return ref, unstable

    def run(self, seed=None, plan=None):
        """Executes a seed or a plan; returns (problem class or None, message, output)."""
        d = self.dir()
        argv = [self.bin, "-dir", d, "-certs", self.certs, "-ref", self.ref]
        if plan is not None:
            pf = os.path.join(d, "plan.json")
            with open(pf, "w") as f:
                json.dump(plan, f)
            argv += ["-plan", pf]
        else:
            argv += ["-seed", str(seed)]
        rc, out, err = self.cmd(argv)
        shutil.rmtree(d, ignore_errors=True)
        o = None
        try:
            o = json.loads(out)
        except ValueError:
            pass
        if rc == 0 and o is not None:
            return None, "", o
        if rc is None:
            return "hang", "the process makes no progress", o
        race = race_report(err)
        if race:
            return "race", race, o
        if "WARNING: DATA RACE" in err:
            return "other", err[:3000], o  # a race which does not concern the library
        if rc == 1 and o and o.get("bad"):
            return o["bad"][0]["class"], o["bad"][0]["msg"], o
        return "crash", "exit status %s: %s" % (rc, err[-3000:]), o


def race_report(err):
    """The first race report in which the library takes part."""
    for rep in re.findall(r"WARNING: DATA RACE\n(.*?)\n=====", err, re.S):
        if "openrdap/rdap" in rep:
            return "DATA RACE\n" + rep
    return None


def shrink(c, cls, plan, secs):
    """Minimises a failing plan: rounds, actors, operations, then switches."""
    t0 = time.time()
    runs = 0
    best = [plan]
    with cf.ThreadPoolExecutor(8) as ex:
        def try_all(cands):
            """The first of the candidates which still fails."""
            nonlocal runs
            if not cands or time.time() - t0 > secs:
                return None
            runs += len(cands)
            for p, (k, _, o) in zip(cands, ex.map(lambda p: c.run(plan=p), cands)):
                if k == cls:
                    return p
            return None

        def free(p):
            return json.loads(json.dumps(p))
        # without the recorded schedule: fewer rounds, actors and operations (seeded schedule)
        progress = True
        while progress and time.time() - t0 < secs:
            progress = False
            p = best[0]
            cands = []
            for i in range(len(p["rounds"])):
                if len(p["rounds"]) > 1:
                    q = free(p)
                    del q["rounds"][i]
                    cands.append(q)
                for a in range(len(p["rounds"][i]["actors"])):
                    if len(p["rounds"][i]["actors"]) > 1:
                        q = free(p)
                        del q["rounds"][i]["actors"][a]
                        cands.append(q)
                    for k in range(len(p["rounds"][i]["actors"][a])):
                        if len(p["rounds"][i]["actors"][a]) > 1:
                            q = free(p)
                            del q["rounds"][i]["actors"][a][k]
                            cands.append(q)
            for j in range(0, len(cands), 8):
                x = try_all(cands[j:j + 8])
                if x:
                    best[0] = x
                    progress = True
                    break
        # record the schedule, then drop switches
        k, msg, o = c.run(plan=best[0])
        if k == cls and o and o.get("plan"):
            p = o["plan"]
            k2, _, _ = c.run(plan=p)
            if k2 == cls:
                best[0] = p
                for i in range(len(p["rounds"])):
                    n = len(best[0]["rounds"][i].get("switches") or [])
                    size = max(1, n)
                    while size >= 1 and time.time() - t0 < secs:
                        j = 0
                        while True:
                            sw = best[0]["rounds"][i].get("switches") or []
                            if j >= len(sw):
                                break
                            cands = []
                            js = j
                            while js < len(sw) and len(cands) < 8:
                                q = free(best[0])
                                q["rounds"][i]["switches"] = sw[:js] + sw[js + size:]
                                cands.append(q)
                                js += size
                            x = try_all(cands)
                            if x is None:
                                j = js
                                if time.time() - t0 > secs:
                                    break
                            else:
                                best[0] = x
                        size //= 2
    return best[0], runs


def decide(tier, seed, t0, scratch):
    import check
    workers = check.workers_n()
    secs = float(os.environ.get("SIM_SECS", check.THOROUGH_SECS if tier == "thorough" else 45))
    c = Conc(scratch)
    ref, unstable = c.references(workers)
    s0 = time.time()
    stop = threading.Event()
    lock = threading.Lock()
    tot = {"runs": 0, "ops": 0, "yields": 0, "switches": 0, "blocks": 0, "distinct": set(), "nontrivial": set(), "rechecks": 0, "diverged": 0}
    opcount, problems, others, samples = {}, [], [], []

    def work(w):
        i = 0
        while not stop.is_set() and time.time() - s0 < secs:
            sd = (seed * 1000003 + i * workers + w) & 0xffffffffffffffff
            i += 1
            cls, msg, o = c.run(seed=sd)
            o2 = None
            if cls is None and i % 40 == 0:
                _, _, o2 = c.run(seed=sd)
            with lock:
                tot["runs"] += 1
                if o:
                    for k in ("ops", "yields", "switches", "blocks"):
                        tot[k] += o[k]
                    tot["distinct"].add(o["hash"])
                    if o["switches"] > 2:
                        tot["nontrivial"].add(o["hash"])
                    for r in o["plan"]["rounds"]:
                        for a in r["actors"]:
                            for k in a:
                                g = k.split("-")[0]
                                opcount[g] = opcount.get(g, 0) + 1
                    if len(samples) < 3:
                        samples.append({"seed": sd, "actors": [r["actors"] for r in o["plan"]["rounds"]], "switches": o["switches"], "schedule_hash": o["hash"]})
                if o2:
                    tot["rechecks"] += 1
                    if o2["hash"] != o["hash"]:
                        tot["diverged"] += 1
                if cls == "other":
                    others.append((sd, msg))
                elif cls is not None:
                    problems.append((cls, msg, sd, o))
                    stop.set()

    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    search_s = time.time() - s0
    result, extra, violations = None, {"unconfirmed": []}, 0
    for cls, msg, sd, o in problems:
        # again, in a fresh process
        again = [c.run(seed=sd) for _ in range(2)]
        hit = next((x for x in again if x[0] == cls), None)
        if hit is None:
            extra["unconfirmed"].append({"class": cls, "seed": sd, "message": msg[:500]})
            continue
        plan, runs = None, 0
        if hit[2] and hit[2].get("plan"):
            plan = hit[2]["plan"]
            if c.run(plan=plan)[0] != cls:
                plan = None
        if plan:
            seeded = json.loads(json.dumps(plan))
            for r in seeded["rounds"]:
                r["replay"] = False
            plan, runs = shrink(c, cls, seeded if c.run(plan=seeded)[0] == cls else plan, 60 if tier == "thorough" else 25)
        final = c.run(plan=plan) if plan else c.run(seed=sd)
        if final[0] != cls:
            extra["unconfirmed"].append({"class": cls, "seed": sd, "message": msg[:500]})
            continue
        path = check.out_path("C17", cls, sd)
        with open(path, "w") as f:
            json.dump({"property": "C17", "class": cls, "seed": sd, "message": final[1], "plan": plan, "minimisation": "%d runs" % runs}, f, indent=1)
            f.write("\n")
        violations += 1
        check.say("%s: %s" % (cls, final[1][:3000]))
        result = path
        break
    runs = tot["runs"]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(tot["nontrivial"]),
        "rule": "one evaluation is one process executing one seed: 1 to 3 rounds of 2 to 5 actors, each with 1 to 3 operations of a catalogue of %d, under the race "
                "detector; a seeded scheduler decides at every statement of the library which actor runs. Non-trivial: more than two switches between actors. "
                "Distinct: by the hash of the sequence of (scheduling point, actor) switches." % (len(ref) + len(unstable)),
        "samples": samples or [{"note": "none"}],
        "operations": dict(sorted(opcount.items())),
        "operations_total": tot["ops"],
        "operations_left_out_because_unstable_alone": unstable,
        "scheduling_points": tot["yields"],
        "switches": tot["switches"],
        "lock_or_wait_switches": tot["blocks"],
        "distinct_schedules": len(tot["distinct"]),
        "runs_per_hour": int(runs / search_s * 3600) if search_s else 0,
        "seeds_per_hour": int(runs / search_s * 3600) if search_s else 0,
        "simulated_hours": 0,
        "faults_injected": {"preemption": tot["switches"]},
        "determinism": {"runs_executed_twice": tot["rechecks"], "diverged": tot["diverged"]},
        "races_outside_the_library": len(others),
        "components": {
            "real code": ["openrdap/rdap from /repo's working tree with a scheduling point woven before every statement", "Go standard library, kingpin, pkcs12, homedir", "the scratch file system"],
            "simulated": ["scheduler (token passing below the race detector's notice)", "network: in-memory connections or transports", "random numbers of the runtime"],
            "stub": ["bootstrap services and RDAP servers"],
        },
        "workers": workers,
    }
    cov.update(extra)
    ev = {"property": "C17", "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["data races are judged by the Go race detector's happens-before analysis of the executions explored",
                          "the result of an operation alone is the one it has in a fresh process"],
          "wall_s": round(time.time() - t0, 1), "violations": violations}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".C17.tmp"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(os.path.join(d, ".C17.tmp"), os.path.join(d, "C17.json"))
    if result:
        check.say("VIOLATION property=C17 replay=%s" % result)
        return 1
    if not ref:
        sys.stderr.write("no operation has a stable result alone\n")
        return 2
    check.say("property C17 held in %d simulated runs (%d workers, seed %d, %.0f s)" % (runs, workers, seed, time.time() - t0))
    return 0


def replay(path, scratch):
    import check
    with open(path) as f:
        rep = json.load(f)
    c = Conc(scratch)
    c.references(check.workers_n())
    cls, msg, o = c.run(plan=rep["plan"]) if rep.get("plan") else c.run(seed=rep["seed"])
    check.say(msg)
    if cls == rep["class"]:
        check.say("reproduced\nVIOLATION property=C17 replay=%s" % path)
        return 1
    check.say("not reproduced (%s)" % cls)
    return 0

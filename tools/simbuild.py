#!/usr/bin/env python3
"""Builds the simulator binary from /repo's current working tree.

The seams are put into the *standard library* with `go build -overlay`: the
code under test is compiled unmodified from /repo, and every place where it
can meet nondeterminism (clock, file system calls, dialling, randomness,
select/timer order, mutex contention) leads into the simulator.

Nothing is written outside the build directory given (git-ignored).
"""
import hashlib, json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, ".build"))


def env():
    """The toolchain environment of /opt/vp/env.sh, offline."""
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                         stdout=subprocess.PIPE, check=True).stdout
    e = dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)
    e["GOFLAGS"] = "-mod=mod -buildvcs=false"
    e["GOPROXY"] = "off"
    e["GOTOOLCHAIN"] = "local"
    e["GOWORK"] = "off"
    e["GOCACHE"] = os.path.join(BUILD, "gocache")
    e.pop("GODEBUG", None)
    return e


class PatchError(Exception):
    pass


def sub1(text, old, new, what):
    if text.count(old) != 1:
        raise PatchError("%s: expected exactly one occurrence of %r, found %d" % (what, old, text.count(old)))
    return text.replace(old, new)


SYSCALLS = [  # (func name, parameters, results)
    ("openat", "dirfd int, path string, flags int, mode uint32", "(fd int, err error)"),
    ("unlinkat", "dirfd int, path string, flags int", "(err error)"),
    ("linkat", "olddirfd int, oldpath string, newdirfd int, newpath string, flags int", "(err error)"),
    ("symlinkat", "oldpath string, newdirfd int, newpath string", "(err error)"),
    ("fchmodat", "dirfd int, path string, mode uint32", "(err error)"),
    ("utimensat", "dirfd int, path string, times *[2]Timespec, flag int", "(err error)"),
    ("Close", "fd int", "(err error)"),
    ("Fdatasync", "fd int", "(err error)"),
    ("Fsync", "fd int", "(err error)"),
    ("Mkdirat", "dirfd int, path string, mode uint32", "(err error)"),
    ("read", "fd int, p []byte", "(n int, err error)"),
    ("write", "fd int, p []byte", "(n int, err error)"),
    ("pread", "fd int, p []byte, offset int64", "(n int, err error)"),
    ("pwrite", "fd int, p []byte, offset int64", "(n int, err error)"),
    ("Fstat", "fd int, stat *Stat_t", "(err error)"),
    ("fstatat", "fd int, path string, stat *Stat_t, flags int", "(err error)"),
    ("Ftruncate", "fd int, length int64", "(err error)"),
    ("Truncate", "path string, length int64", "(err error)"),
    ("Renameat", "olddirfd int, oldpath string, newdirfd int, newpath string", "(err error)"),
]

UNIXCALLS = [
    ("Unlinkat", "dirfd int, path string, flags int", "error"),
    ("Openat", "dirfd int, path string, flags int, perm uint32", "(int, error)"),
    ("Mkdirat", "dirfd int, path string, mode uint32", "error"),
]

FIELD = {"path": "Path", "oldpath": "Path", "newpath": "Path2", "dirfd": "Dirfd", "olddirfd": "Dirfd",
         "newdirfd": "Dirfd2", "flags": "Flags", "flag": "Flags", "mode": "Mode", "perm": "Mode", "fd": "Fd",
         "p": "Buf", "offset": "Off", "length": "Off", "stat": "Stat", "times": "Times"}


def wrapper(name, params, results, pkg=""):
    names = [p.strip().split()[0] for p in params.split(",")]
    fields = ", ".join("%s: %s" % (FIELD[n], n) for n in names)
    args = ", ".join("c." + FIELD[n] for n in names)
    has_n = "int" in results
    call = "simreal_%s(%s)" % (name, args)
    do = ("c.N, c.Err = " if has_n else "c.Err = ") + call
    ret = "return c.N, c.Err" if has_n else "return c.Err"
    op = name.lower()
    return """
func %s(%s) %s {
	if %sSimHook == nil {
		return simreal_%s(%s)
	}
	c := &%sSimCall{Op: "%s", %s}
	%sSimHook(c, func(c *%sSimCall) { %s })
	%s
}
""" % (name, params, results, pkg, name, ", ".join(names), pkg, op, fields, pkg, pkg, do, ret)


def gen_overlay(goroot, out):
    """Writes patched copies of standard library files to out, returns the Replace map."""
    src = os.path.join(goroot, "src")
    rep = {}

    def emit(rel, text):
        p = os.path.join(out, rel.replace("/", "__"))
        write_if_changed(p, text)
        rep[os.path.join(src, rel)] = p

    def load(rel):
        with open(os.path.join(src, rel)) as f:
            return f.read()

    # --- runtime: deterministic randomness, labels, no time-slice preemption
    t = load("runtime/rand.go")
    t = sub1(t, "	globalRand.state.Init(*seed)\n",
             "	for i := range seed {\n		seed[i] = byte(i*7 + 3)\n	}\n	globalRand.state.Init(*seed)\n", "rand.go")
    t = sub1(t, "	mp := getg().m\n	c := &mp.chacha8\n",
             "	if gp := getg(); gp.bubble != nil || simForce {\n		return simNext()\n	}\n	mp := getg().m\n	c := &mp.chacha8\n", "rand.go")
    t += """
var simState uint64
var simForce bool

// SimForce makes every goroutine use the seeded generator.
func SimForce() { simForce = true }

//go:nosplit
func simNext() uint64 {
	simState += 0x9e3779b97f4a7c15
	z := simState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simCheap() uint32 {
	if getg().bubble != nil || simForce {
		return uint32(simNext())
	}
	return cheaprand()
}

// SimSeed seeds the generator used inside a simulation bubble.
func SimSeed(s uint64) { simState, simNames = s, s }

var simNames uint64

// SimName returns a random number for a temporary file name.
func SimName() uint64 {
	if gp := getg(); gp.bubble == nil && !simForce {
		return rand()
	}
	simNames += 0x9e3779b97f4a7c15
	x := simState
	simState = simNames
	r := simNext()
	simState = x
	return r
}

// SimSetLabel sets a goroutine label, inherited by the goroutines it starts.
func SimSetLabel(p unsafe.Pointer) { getg().labels = p }

// SimGetLabel returns the label of the calling goroutine.
func SimGetLabel() unsafe.Pointer { return getg().labels }

"""
    emit("runtime/rand.go", t)
    t = load("os/tempfile.go")
    t = sub1(t, "uint64(uint32(runtime_rand()))", "uint64(uint32(runtime.SimName()))", "tempfile.go")
    t = sub1(t, "import (\n", "import (\n	\"runtime\"\n", "tempfile.go")
    emit("os/tempfile.go", t)
    t = load("runtime/select.go")
    t = sub1(t, "j := cheaprandn(uint32(norder + 1))",
             "j := uint32((uint64(simCheap()) * uint64(norder+1)) >> 32)", "select.go")
    emit("runtime/select.go", t)
    with open(os.path.join(VERIF, "tools", "simconc_runtime.go")) as f:
        emit("runtime/zz_simconc.go", f.read())
    t = load("runtime/time.go")
    t = sub1(t, "t.rand = cheaprand()", "t.rand = simCheap()", "time.go")
    emit("runtime/time.go", t)
    t = load("runtime/proc.go")
    t = sub1(t, "const forcePreemptNS = 10 * 1000 * 1000", "const forcePreemptNS = 1000 * 1000 * 1000 * 1000", "proc.go")
    t = sub1(t, "if pp.schedtick%61 == 0 && !sched.runq.empty() {", "if pp.schedtick&0 != 0 && !sched.runq.empty() {", "proc.go schedtick")
    t = sub1(t, "func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n	if simNoRetake {\n		return 0\n	}\n", "proc.go retake")
    t += "\n// simNoRetake: a goroutine keeps its processor during system calls.\nvar simNoRetake = true\n"
    emit("runtime/proc.go", t)

    # --- simrt: a package giving access to internal/synctest
    emit("simrt/simrt.go", """package simrt

import "internal/synctest"

// Run runs f in a bubble with a fake clock.
func Run(f func()) { synctest.Run(f) }

// Wait waits until every other goroutine of the bubble is durably blocked.
func Wait() { synctest.Wait() }

// InBubble reports whether the caller runs in a bubble.
func InBubble() bool { return synctest.IsInBubble() }
""")

    # --- sync: contention leads to the scheduler
    t = load("sync/mutex.go")
    t = sub1(t, "func (m *Mutex) Lock() {\n	m.mu.Lock()\n}",
             """func (m *Mutex) Lock() {
	if SimLockHook != nil {
		if m.mu.TryLock() || SimLockHook(m.mu.TryLock) {
			return
		}
	}
	m.mu.Lock()
}

// SimLockHook is called on contention with a function which tries the lock.
// It returns true once the lock was obtained, or false to block normally.
var SimLockHook func(try func() bool) bool""", "mutex.go")
    emit("sync/mutex.go", t)
    t = load("sync/rwmutex.go")
    t = sub1(t, "func (rw *RWMutex) RLock() {\n", """func (rw *RWMutex) RLock() {
	if SimLockHook != nil {
		if rw.TryRLock() || SimLockHook(rw.TryRLock) {
			return
		}
	}
""", "rwmutex.go")
    t = sub1(t, "func (rw *RWMutex) Lock() {\n", """func (rw *RWMutex) Lock() {
	if SimLockHook != nil {
		if rw.TryLock() || SimLockHook(rw.TryLock) {
			return
		}
	}
""", "rwmutex.go")
    emit("sync/rwmutex.go", t)

    # --- syscall: file system calls lead to the simulator
    t = load("syscall/zsyscall_linux_amd64.go")
    add = """package syscall

// SimCall is one file system call on its way through the simulator.
type SimCall struct {
	Op             string
	Path, Path2    string
	Dirfd, Dirfd2  int
	Fd, Flags      int
	Mode           uint32
	Buf            []byte
	Off            int64
	Stat           *Stat_t
	Times          *[2]Timespec
	N              int
	Err            error
}

// SimHook decides what happens to a call; do performs it for real.
var SimHook func(c *SimCall, do func(c *SimCall))
"""
    for name, params, results in SYSCALLS:
        sig = "func %s(%s) %s {" % (name, params, results)
        t = sub1(t, sig, "func simreal_%s(%s) %s {" % (name, params, results), "zsyscall " + name)
        add += wrapper(name, params, results)
    emit("syscall/zsyscall_linux_amd64.go", t)
    emit("syscall/zz_sim.go", add)
    t = load("internal/syscall/unix/at.go")
    add = "package unix\n\nimport \"syscall\"\n"
    for name, params, results in UNIXCALLS:
        sig = "func %s(%s) %s {" % (name, params, results)
        t = sub1(t, sig, "func simreal_%s(%s) %s {" % (name, params, results), "unix " + name)
        add += wrapper(name, params, results, "syscall.")
    emit("internal/syscall/unix/at.go", t)
    emit("internal/syscall/unix/zz_sim_linux.go", add)

    # --- net: dialling leads to the simulator
    t = load("net/dial.go")
    t = sub1(t, "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
             """func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if SimDial != nil {
		ctx, cancel := d.dialCtx(ctx)
		defer cancel()
		return SimDial(ctx, network, address)
	}
""", "dial.go")
    t += "\n// SimDial replaces dialling.\nvar SimDial func(ctx context.Context, network, address string) (Conn, error)\n"
    emit("net/dial.go", t)

    # --- net/http: response bodies and round trips are observed
    t = load("net/http/roundtrip.go")
    t = sub1(t, "	return t.roundTrip(req)\n", """	resp, err := t.roundTrip(req)
	if SimObserve != nil {
		SimObserve(t, req, resp, err)
	}
	return resp, err
""", "roundtrip.go")
    t += "\n// SimObserve sees the outcome of each round trip.\nvar SimObserve func(t *Transport, req *Request, resp *Response, err error)\n"
    emit("net/http/roundtrip.go", t)
    return rep


def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def goroot(e):
    return subprocess.run(["go", "env", "GOROOT"], env=e, stdout=subprocess.PIPE, check=True).stdout.decode().strip()


def instrument(e):
    """Copies of the library's packages with a scheduling point before every statement; returns the Replace map."""
    exe = os.path.join(BUILD, "instr")
    e = dict(e, GOFLAGS="", GO111MODULE="off", CGO_ENABLED="0")
    r = subprocess.run(["go", "build", "-o", exe, os.path.join(VERIF, "tools", "instr", "main.go")], env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise PatchError("instr: " + r.stdout.decode(errors="replace"))
    dirs = []
    for d, sub, files in os.walk(REPO):
        sub[:] = sorted(x for x in sub if not x.startswith((".", "_")) and x not in ("testdata", "cmd", "test", "vendor"))
        if any(n.endswith(".go") and not n.endswith("_test.go") for n in files):
            dirs.append(d)
    r = subprocess.run([exe, os.path.join(BUILD, "instrumented")] + dirs, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise PatchError("instr: " + r.stderr.decode(errors="replace"))
    return json.loads(r.stdout)


def build(kind="sim"):
    """Builds the simulator ("sim"), or the race detecting one of C17 ("simc"); returns the path of the binary."""
    e = env()
    race = kind == "simc"
    e["CGO_ENABLED"] = "1" if race else "0"
    ov = os.path.join(BUILD, "overlay")
    os.makedirs(ov, exist_ok=True)
    rep = gen_overlay(goroot(e), ov)
    if race:
        rep.update(instrument(e))
    mod = os.path.join(BUILD, "mod-" + kind)
    os.makedirs(mod, exist_ok=True)
    # module: a copy of the harness, with /repo as a replaced dependency
    with open(os.path.join(REPO, "go.mod")) as f:
        repomod = f.read()
    gover = re.search(r"^go\s+(\S+)", repomod, re.M).group(1)
    reqs = re.findall(r"^\s*(?:require\s+)?([\w./\-]+\.[\w./\-]+)\s+(v\S+)", repomod, re.M)
    gomod = "module rdapsim\n\ngo %s\n\nrequire github.com/openrdap/rdap v0.0.0\n\nrequire (\n" % gover
    for m, v in reqs:
        gomod += "\t%s %s\n" % (m, v)
    gomod += ")\n\nreplace github.com/openrdap/rdap => %s\n" % REPO
    write_if_changed(os.path.join(mod, "go.mod"), gomod)
    with open(os.path.join(REPO, "go.sum")) as f:
        write_if_changed(os.path.join(mod, "go.sum"), f.read())
    simsrc = os.path.join(VERIF, kind)
    have = set()
    for n in sorted(os.listdir(simsrc)):
        if n.endswith(".go"):
            have.add(n)
            with open(os.path.join(simsrc, n)) as f:
                write_if_changed(os.path.join(mod, n), f.read())
    for n in os.listdir(mod):
        if n.endswith(".go") and n not in have:
            os.unlink(os.path.join(mod, n))
    ovf = os.path.join(BUILD, "overlay-%s.json" % kind)
    write_if_changed(ovf, json.dumps({"Replace": rep}, indent=1, sort_keys=True))
    binp = os.path.join(BUILD, "rdapsim" if kind == "sim" else "rdapconc")
    cmd = ["go", "build", "-overlay", ovf, "-o", binp]
    if race:
        cmd.append("-race")
    cmd.append(".")
    r = subprocess.run(cmd, cwd=mod, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise PatchError("build failed:\n" + r.stdout.decode(errors="replace"))
    return binp


if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "sim"))

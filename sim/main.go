package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// The worker program. It is started by check.py:
//
//	rdapsim run     -root DIR -profiles a:3,b:1 -seed S -worker I -workers N -secs T [-runs R] [-prop C01]
//	rdapsim one     -root DIR -profile P -runseed S [-trace]
//	rdapsim shrink  -root DIR -profile P -runseed S -prop C01 -class X -out FILE
//	rdapsim replay  -root DIR FILE

// Replay is the replay file of a violation.
type Replay struct {
	Property string              `json:"property"`
	Class    string              `json:"class"`
	Message  string              `json:"message"`
	Profile  string              `json:"profile"`
	Seed     string              `json:"seed"`
	Drop     []string            `json:"dropped_operations,omitempty"`
	Streams  map[string][]uint32 `json:"choices"`
	Hash     string              `json:"execution_hash"`
	Trace    []string            `json:"trace"`
	Shrunk   string              `json:"minimisation"`
}

func mix64(a, b uint64) uint64 {
	r := rng{s: a*0x9e3779b97f4a7c15 + b*0xd1b54a32d192ed03 + 0x5851f42d4c957f2d}
	r.next()
	return r.next()
}

type weighted struct {
	name string
	w    int
}

func parseProfiles(x string) (l []weighted, sum int) {
	for _, f := range strings.Split(x, ",") {
		n, w, ok := strings.Cut(f, ":")
		k := 1
		if ok {
			k, _ = strconv.Atoi(w)
		}
		l = append(l, weighted{n, k})
		sum += k
	}
	return l, sum
}

// pick maps a run number to a profile, the same way in each worker.
func pick(l []weighted, sum int, k uint64) string {
	i := int(mix64(k, 77) % uint64(sum))
	for _, p := range l {
		if i < p.w {
			return p.name
		}
		i -= p.w
	}
	return l[0].name
}

func setupProcess(root string) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	for _, v := range []string{"HTTP_PROXY", "HTTPS_PROXY", "NO_PROXY", "ALL_PROXY", "http_proxy", "https_proxy", "no_proxy", "all_proxy", "GODEBUG", "SSLKEYLOGFILE"} {
		os.Unsetenv(v)
	}
	os.Setenv("TZ", "UTC")
	time.Local = time.UTC
	scratch := filepath.Join(root, "s")
	os.MkdirAll(filepath.Join(root, "ca"), 0o700)
	os.Setenv("HOME", filepath.Join(scratch, "home"))
	makeCerts(filepath.Join(root, "ca"))
	initServices()
	baseTransport = http.DefaultTransport.(*http.Transport).Clone()
	installSeams()
	installNetSeams()
	// The first run of a process initialises things (sync.Once, pools): do it
	// with a throw-away run, so that all runs are alike.
	for _, p := range []string{"failover", "cli", "crash"} {
		runOne(p, newTape(12345), &Options{root: scratch}, newStats())
	}
}

func emit(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(append(b, '\n'))
}

func gcNow() {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 300<<20 {
		runtime.GC()
	}
}

func has(v Violation, prop string) bool {
	if prop == "" {
		return true
	}
	for _, p := range v.Props {
		if p == prop {
			return true
		}
	}
	return false
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: rdapsim run|one|shrink|replay ...")
		os.Exit(2)
	}
	fl := flag.NewFlagSet("rdapsim", flag.ExitOnError)
	root := fl.String("root", "", "scratch directory")
	profs := fl.String("profiles", "failover", "profiles with weights")
	prof := fl.String("profile", "failover", "profile")
	seed := fl.Uint64("seed", 1, "base seed")
	runseed := fl.Uint64("runseed", 1, "seed of the run")
	worker := fl.Uint64("worker", 0, "worker number")
	workers := fl.Uint64("workers", 1, "number of workers")
	secs := fl.Float64("secs", 10, "time budget")
	maxRuns := fl.Int("runs", 1<<40, "run budget")
	prop := fl.String("prop", "", "property of interest")
	class := fl.String("class", "", "class of the violation")
	trace := fl.Bool("trace", false, "print the trace")
	out := fl.String("out", "", "replay file to write")
	recheck := fl.Int("recheck", 50, "re-execute every n-th run")
	fl.Parse(os.Args[2:])
	if *root == "" {
		fmt.Fprintln(os.Stderr, "-root is required")
		os.Exit(2)
	}
	setupProcess(*root)
	opts := &Options{root: filepath.Join(*root, "s"), trace: *trace}
	switch os.Args[1] {
	case "run":
		doRun(*root, opts, *profs, *seed, *worker, *workers, *secs, *maxRuns, *prop, *recheck)
	case "one":
		st := newStats()
		r := runOne(*prof, newTape(*runseed), opts, st)
		for _, l := range r.trace {
			fmt.Println(l)
		}
		for _, v := range r.viol {
			fmt.Println("VIOLATION", v.Props, v.Class, v.Msg)
		}
		fmt.Printf("hash %016x steps %d states %d checks %v faults %v\n", r.hash, r.steps, r.states, st.Checks, st.Faults)
		if len(r.viol) > 0 {
			os.Exit(1)
		}
	case "shrink":
		doShrink(opts, *prof, *runseed, *prop, *class, *secs, *out)
	case "replay":
		doReplay(opts, fl.Arg(0))
	default:
		os.Exit(2)
	}
}

func doRun(root string, opts *Options, profs string, seed, worker, workers uint64, secs float64, maxRuns int, prop string, recheck int) {
	l, sum := parseProfiles(profs)
	st := newStats()
	start := time.Now()
	beat := start
	hashes, relevant := map[uint64]struct{}{}, map[uint64]struct{}{}
	states := 0
	nontriv := 0
	rechecks, diverged := 0, 0
	byProfile := map[string]int{}
	var samples []map[string]any
	other := 0
	cur, err := os.Create(filepath.Join(root, "current"))
	if err != nil {
		panic(err)
	}
	stop := false
	for i := 0; i < maxRuns && !stop; i++ {
		if i > 0 && time.Since(start).Seconds() > secs {
			break
		}
		k := uint64(i)*workers + worker
		rs := mix64(seed, k)
		p := pick(l, sum, k)
		cur.WriteAt([]byte(fmt.Sprintf("%-12s %20d %12d\n", p, rs, i)), 0)
		c0 := st.Checks[prop]
		r := runOne(p, newTape(rs), opts, st)
		byProfile[p]++
		hashes[r.hash] = struct{}{}
		counts := r.nontriv && (prop == "" || st.Checks[prop] > c0)
		if counts {
			relevant[r.hash] = struct{}{}
		}
		states += r.states
		if r.nontriv {
			nontriv++
		}
		if len(samples) < 3 && counts {
			samples = append(samples, map[string]any{"profile": p, "seed": fmt.Sprint(rs), "steps": r.steps, "operations": r.ops, "execution_hash": fmt.Sprintf("%016x", r.hash)})
		}
		if recheck > 0 && i%recheck == recheck-1 {
			r2 := runOne(p, newTape(rs), opts, newStats())
			rechecks++
			if r2.hash != r.hash || r2.steps != r.steps || len(r2.viol) != len(r.viol) {
				diverged++
				emit(map[string]any{"t": "diverged", "profile": p, "seed": fmt.Sprint(rs)})
				if os.Getenv("SIM_DEBUG") != "" {
					os.WriteFile(filepath.Join(root, "div.a"), []byte(strings.Join(r.trace, "\n")+"\n"), 0o600)
					os.WriteFile(filepath.Join(root, "div.b"), []byte(strings.Join(r2.trace, "\n")+"\n"), 0o600)
				}
			}
		}
		for _, v := range r.viol {
			if has(v, prop) {
				emit(map[string]any{"t": "viol", "profile": p, "seed": fmt.Sprint(rs), "class": v.Class, "props": v.Props, "msg": v.Msg})
				stop = prop != ""
			} else {
				other++
			}
		}
		gcNow()
		if time.Since(beat) > time.Second {
			beat = time.Now()
			emit(map[string]any{"t": "hb", "runs": st.Runs})
		}
	}
	f, _ := os.Create(filepath.Join(root, "hashes"))
	w := bufio.NewWriter(f)
	var hs []uint64
	for h := range relevant {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	for _, h := range hs {
		binary.Write(w, binary.LittleEndian, h)
	}
	w.Flush()
	f.Close()
	emit(map[string]any{"t": "done", "stats": st, "distinct": len(hashes), "states": states, "nontrivial": nontriv, "rechecks": rechecks, "diverged": diverged,
		"profiles": byProfile, "samples": samples, "other": other, "secs": time.Since(start).Seconds()})
}

func find(r *Result, prop, class string) *Violation {
	for i, v := range r.viol {
		if has(v, prop) && (class == "" || v.Class == class) {
			return &r.viol[i]
		}
	}
	return nil
}

// doShrink minimises a failing run and writes its replay file.
func doShrink(opts *Options, prof string, seed uint64, prop, class string, secs float64, out string) {
	opts.trace = false
	r := runOne(prof, newTape(seed), opts, newStats())
	v := find(r, prop, class)
	if v == nil {
		emit(map[string]any{"t": "norepro"})
		os.Exit(3)
	}
	class = v.Class
	start := time.Now()
	runs := 0
	drop := []string{}
	vals := r.tape.recorded()
	total0 := count(vals)
	try := func(vals map[string][]uint32, drop []string) *Result {
		if time.Since(start).Seconds() > secs {
			return nil
		}
		runs++
		gcNow()
		x := runOne(prof, replayTape(clone(vals), drop), opts, newStats())
		if find(x, prop, class) != nil {
			return x
		}
		return nil
	}
	ops0 := r.ops
	if x := try(vals, drop); x != nil {
		r = x
		// 1. drop operations
		for n := len(ops0); n >= 1; n /= 2 {
			for i := 0; i < len(ops0); i += n {
				var d []string
				dm := map[string]bool{}
				for _, k := range drop {
					dm[k] = true
				}
				for _, k := range ops0[i:min(i+n, len(ops0))] {
					if !dm[k] {
						d = append(d, k)
					}
				}
				if len(d) == 0 {
					continue
				}
				if x := try(vals, append(append([]string{}, drop...), d...)); x != nil {
					r = x
					drop = append(drop, d...)
				}
			}
		}
		// 2. empty, halve and zero the streams
		for pass := 0; pass < 3; pass++ {
			before := count(vals)
			vals = r.tape.recorded()
			for _, name := range names(vals) {
				v0 := clone(vals)
				delete(v0, name)
				if x := try(v0, drop); x != nil {
					r, vals = x, x.tape.recorded()
					continue
				}
				for n := len(vals[name]); n >= 1; n /= 2 {
					for i := 0; i < len(vals[name]); i += n {
						any := false
						v1 := clone(vals)
						for j := i; j < min(i+n, len(v1[name])); j++ {
							any = any || v1[name][j] != 0
							v1[name][j] = 0
						}
						if !any {
							continue
						}
						if x := try(v1, drop); x != nil {
							r, vals = x, x.tape.recorded()
						}
					}
				}
			}
			if count(vals) >= before && pass > 0 {
				break
			}
		}
	}
	opts.trace = true
	final := runOne(prof, replayTape(clone(vals), drop), opts, newStats())
	v = find(final, prop, class)
	if v == nil {
		emit(map[string]any{"t": "norepro"})
		os.Exit(3)
	}
	rep := &Replay{Property: prop, Class: class, Message: v.Msg, Profile: prof, Seed: fmt.Sprint(seed), Drop: drop, Streams: vals,
		Hash: fmt.Sprintf("%016x", final.hash), Trace: final.trace,
		Shrunk: fmt.Sprintf("%d runs, %d -> %d operations, %d -> %d non-zero choices", runs, len(ops0), len(final.ops), total0, count(vals))}
	b, _ := json.MarshalIndent(rep, "", " ")
	if err := os.WriteFile(out, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	emit(map[string]any{"t": "shrunk", "class": class, "msg": v.Msg, "min": rep.Shrunk})
}

func clone(m map[string][]uint32) map[string][]uint32 {
	x := map[string][]uint32{}
	for k, v := range m {
		x[k] = append([]uint32(nil), v...)
	}
	return x
}

func count(m map[string][]uint32) int {
	n := 0
	for _, v := range m {
		for _, x := range v {
			if x != 0 {
				n++
			}
		}
	}
	return n
}

func names(m map[string][]uint32) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func doReplay(opts *Options, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	opts.trace = true
	r := runOne(rep.Profile, replayTape(rep.Streams, rep.Drop), opts, newStats())
	for _, l := range r.trace {
		fmt.Println(l)
	}
	v := find(r, rep.Property, rep.Class)
	if v == nil {
		fmt.Println("not reproduced")
		os.Exit(0)
	}
	fmt.Printf("reproduced: property=%s class=%s %s\n", rep.Property, v.Class, v.Msg)
	if fmt.Sprintf("%016x", r.hash) == rep.Hash {
		fmt.Println("identical execution")
	} else {
		fmt.Printf("the execution differs from the recorded one (%016x, recorded %s)\n", r.hash, rep.Hash)
	}
	os.Exit(1)
}

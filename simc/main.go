// The concurrency simulator of C17: independent operations of the library run
// as actors under a seeded scheduler which switches between statements, with
// the race detector on. One process executes one seed, since lazily created
// shared state is only fresh once per process.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
)

var nolog = log.New(io.Discard, "", 0)

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) n(k int) int { return int(r.next() % uint64(k)) }

// Plan is what a process executes; a replay file holds a minimised one.
type Plan struct {
	Seed   uint64  `json:"seed"`
	Rounds []Round `json:"rounds"`
}

// Round is a set of actors which run at the same time.
type Round struct {
	Actors [][]string `json:"actors"` // operations of each actor
	Prob   uint32     `json:"prob"`
	Sched  uint64     `json:"sched"`
	Replay bool       `json:"replay"`
	Forced []uint64   `json:"switches,omitempty"` // point<<8 | actor
}

func makePlan(seed uint64, ops []Op) *Plan {
	r := &rng{seed}
	p := &Plan{Seed: seed}
	rounds := 1 + r.n(3)
	for i := 0; i < rounds; i++ {
		rd := Round{Prob: []uint32{655, 6, 6553, 65, 32768, 2000, 20}[r.n(7)], Sched: r.next()}
		// Operations of a group meet often.
		na := 2 + r.n(4)
		focus := ops[r.n(len(ops))].key
		group := strings.SplitN(focus, "-", 2)[0]
		mode := r.n(4)
		var near []Op
		for _, o := range ops {
			if strings.HasPrefix(o.key, group) {
				near = append(near, o)
			}
		}
		for a := 0; a < na; a++ {
			var l []string
			for k := 1 + r.n(3); k > 0; k-- {
				o := ops[r.n(len(ops))]
				switch {
				case mode == 0:
					o = near[r.n(len(near))]
				case mode == 1 && k == 1:
					l = append(l, focus)
					continue
				case mode == 2 && r.n(2) == 0:
					o = near[r.n(len(near))]
				}
				l = append(l, o.key)
			}
			rd.Actors = append(rd.Actors, l)
		}
		p.Rounds = append(p.Rounds, rd)
	}
	return p
}

func short(s string) string {
	h := fnv.New64a()
	io.WriteString(h, s)
	return fmt.Sprintf("%016x", h.Sum64())
}

func main() {
	dir := flag.String("dir", "", "scratch directory")
	certDir := flag.String("certs", "", "directory with the certificates")
	seed := flag.Uint64("seed", 1, "seed")
	gen := flag.Bool("gencerts", false, "write the certificates")
	list := flag.Bool("list", false, "list the operations")
	alone := flag.String("alone", "", "execute one operation alone and print its result")
	refFile := flag.String("ref", "", "results of the operations when alone")
	planFile := flag.String("plan", "", "execute this plan instead of one made from the seed")
	flag.Parse()
	if *gen {
		genCerts(*certDir)
		return
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	for _, v := range []string{"HTTP_PROXY", "HTTPS_PROXY", "NO_PROXY", "ALL_PROXY", "http_proxy", "https_proxy", "no_proxy", "all_proxy", "GODEBUG", "SSLKEYLOGFILE"} {
		os.Unsetenv(v)
	}
	os.Setenv("HOME", filepath.Join(*dir, "home"))
	os.Setenv("XDG_CACHE_HOME", filepath.Join(*dir, "home", "xdg"))
	os.Setenv("SSL_CERT_FILE", filepath.Join(*certDir, "ca.pem"))
	os.Setenv("SSL_CERT_DIR", filepath.Join(*certDir, "none"))
	ops := catalogue(*certDir)
	if *list {
		for _, o := range ops {
			fmt.Println(o.key)
		}
		return
	}
	byKey := map[string]Op{}
	for _, o := range ops {
		byKey[o.key] = o
	}
	loadCerts(*certDir)
	net.SimDial = dial
	runtime.SimForce()
	runtime.SimSeed(*seed)
	if *alone != "" {
		d := filepath.Join(*dir, "alone")
		os.MkdirAll(d, 0o700)
		b, _ := json.Marshal(byKey[*alone].run(d, newShared()))
		os.Stdout.Write(append(b, '\n'))
		return
	}
	ref := map[string]string{}
	b, err := os.ReadFile(*refFile)
	fatal(err)
	fatal(json.Unmarshal(b, &ref))
	plan := &Plan{}
	if *planFile != "" {
		b, err := os.ReadFile(*planFile)
		fatal(err)
		fatal(json.Unmarshal(b, plan))
		runtime.SimSeed(plan.Seed)
	} else {
		plan = makePlan(*seed, ops)
	}
	sync.SimLockHook = func(try func() bool) bool {
		for runtime.SimYieldBlocked() {
			if try() {
				return true
			}
		}
		return false
	}
	h := fnv.New64a()
	out := map[string]any{}
	var yields, blocks, switches uint64
	nops := 0
	var bad []map[string]string
	for ri := range plan.Rounds {
		rd := &plan.Rounds[ri]
		n := len(rd.Actors)
		// Only what is asked for is created before: its first use must happen in the actors.
		var sh *shared
		for _, l := range rd.Actors {
			for _, k := range l {
				if strings.Contains(k, "shared") && sh == nil {
					sh = newShared()
				}
			}
		}
		runtime.SimActorsReset(rd.Sched, rd.Prob, rd.Replay, rd.Forced)
		results := make([][]string, n)
		var wg sync.WaitGroup
		for a := 0; a < n; a++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				runtime.SimActor(a)
				defer runtime.SimActorEnd()
				for k, key := range rd.Actors[a] {
					d := filepath.Join(*dir, "r"+strconv.Itoa(ri)+"a"+strconv.Itoa(a)+"k"+strconv.Itoa(k))
					os.MkdirAll(d, 0o700)
					results[a] = append(results[a], guarded(byKey[key], d, sh))
				}
			}()
		}
		ok := runtime.SimSupervise(n)
		y, bl, log := runtime.SimActorsStats()
		rd.Replay, rd.Forced = true, append([]uint64(nil), log...)
		for _, x := range log {
			fmt.Fprintln(h, x)
		}
		yields += y
		blocks += bl
		switches += uint64(len(log))
		if !ok {
			bad = append(bad, map[string]string{"class": "stuck", "msg": fmt.Sprintf("round %d: the operations %v do not end", ri, rd.Actors)})
			break
		}
		wg.Wait()
		for a := range results {
			for k, got := range results[a] {
				nops++
				key := rd.Actors[a][k]
				if want, ok := ref[key]; ok && got != want {
					bad = append(bad, map[string]string{"class": "result", "msg": fmt.Sprintf("round %d, actor %d: %s has another result than alone:\n%s", ri, a, key, diff(want, got))})
				}
			}
		}
		if len(bad) > 0 {
			plan.Rounds = plan.Rounds[:ri+1]
			break
		}
	}
	out["yields"], out["blocks"], out["switches"], out["ops"] = yields, blocks, switches, nops
	out["hash"] = fmt.Sprintf("%016x", h.Sum64())
	out["bad"] = bad
	out["plan"] = plan
	b, err = json.Marshal(out)
	fatal(err)
	os.Stdout.Write(append(b, '\n'))
	if len(bad) > 0 {
		os.Exit(1)
	}
}

func guarded(o Op, dir string, sh *shared) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprintf("panic: %v", r)
		}
	}()
	return o.run(dir, sh)
}

func diff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	cut := func(s string) string {
		a, b := max(0, i-60), min(len(s), i+200)
		if a > len(s) {
			a = len(s)
		}
		return s[a:b]
	}
	return fmt.Sprintf("alone:      ...%s\nconcurrent: ...%s", cut(want), cut(got))
}

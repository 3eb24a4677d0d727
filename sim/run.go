package main

import (
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"simrt"
	"strings"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
)

// Options of a run which do not influence the execution.
type Options struct {
	root  string // scratch directory
	trace bool
}

// Stats are accumulated over the runs of a worker.
type Stats struct {
	Runs      int            `json:"runs"`
	Steps     int            `json:"steps"`
	Switches  int            `json:"switches"`
	Requests  int            `json:"requests"`
	Probes    int            `json:"probes"`
	LockWaits int            `json:"lock_waits"`
	SimTime   time.Duration  `json:"sim_ns"`
	Faults    map[string]int `json:"faults"`
	Ops       map[string]int `json:"ops"`
	Checks    map[string]int `json:"checks"`
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int{}, Ops: map[string]int{}, Checks: map[string]int{}}
}

func (s *Stats) fault(kind string) { s.Faults[kind]++ }

// check counts an evaluation of a property's oracle.
func (s *Stats) check(props string) {
	for _, p := range strings.Fields(props) {
		s.Checks[p]++
	}
}

// Config holds the intensities (per mille or weights) of one run.
type Config struct {
	fsDelay, crash, fsErr, shortRead             int
	https, queryURL, slow, askCC                 int
	rdapFault, bsFault, badTLS, stallW           int
	packets                                      bool
	procs, ops                                   int
	kill, power, corrupt, remove, netDown        int
	deadline, cancel, sleepy                     int
	wLookup, wDo, wQuick, wDownload, wAcc, wCLI  int
	memory, multi, regs, sandbox, outFail, named int
	byz, odd                                     int
	caches                                       bool
}

// Profile is a family of runs.
type Profile struct {
	name string
	cfg  Config
}

var profiles = map[string]Config{
	// failover between RDAP servers
	"failover": {https: 250, queryURL: 3, slow: 300, rdapFault: 700, bsFault: 60, badTLS: 4, stallW: 4, packets: true, procs: 1, ops: 4, byz: 60,
		deadline: 350, cancel: 100, wDo: 8, wQuick: 5, wLookup: 2, wDownload: 1, wAcc: 1, memory: 800, multi: 100, regs: 5, named: 250, sleepy: 60},
	// deadlines, cancellation, stalls
	"deadline": {https: 250, queryURL: 1, slow: 650, rdapFault: 350, bsFault: 200, badTLS: 1, stallW: 14, packets: true, procs: 2, ops: 4,
		deadline: 750, cancel: 250, wDo: 8, wQuick: 4, wLookup: 3, wDownload: 2, wCLI: 3, memory: 500, regs: 3, fsDelay: 40, named: 200, sleepy: 100},
	// bootstrap histories: several processes sharing a cache directory
	"bootstrap": {https: 30, queryURL: 2, slow: 300, rdapFault: 60, bsFault: 250, badTLS: 1, stallW: 2, procs: 4, ops: 8, packets: true,
		deadline: 150, cancel: 60, wDo: 3, wQuick: 1, wLookup: 10, wDownload: 4, wAcc: 6, wCLI: 2, memory: 250, multi: 250, regs: 2, fsDelay: 60,
		fsErr: 15, sleepy: 500, remove: 30, netDown: 60, kill: 20, shortRead: 20},
	// crashes, torn writes, full disks, power loss
	"crash": {https: 0, slow: 250, rdapFault: 30, bsFault: 150, procs: 4, ops: 7, deadline: 80, wDo: 2, wLookup: 10, wDownload: 5, wAcc: 4, wCLI: 3,
		memory: 0, multi: 150, regs: 2, fsDelay: 60, fsErr: 50, crash: 40, shortRead: 40, sleepy: 350, kill: 60, power: 300, corrupt: 60, remove: 30, packets: true},
	// the command line client
	"cli": {https: 350, queryURL: 2, slow: 250, askCC: 500, rdapFault: 400, bsFault: 120, badTLS: 6, stallW: 4, packets: true, procs: 2, ops: 4, byz: 150,
		wCLI: 10, memory: 300, regs: 4, fsErr: 10, fsDelay: 20, sandbox: 250, outFail: 250, named: 350, sleepy: 120, shortRead: 10},
	// servers which put anything into their answers
	"byzantine": {https: 100, slow: 150, rdapFault: 150, bsFault: 30, stallW: 2, packets: true, procs: 2, ops: 6, byz: 750,
		deadline: 150, cancel: 50, wDo: 8, wQuick: 4, wCLI: 10, memory: 800, regs: 4, outFail: 50, sleepy: 30, named: 250},
	// query texts, server URLs and parameters of all kinds
	"requests": {https: 100, queryURL: 3, slow: 150, rdapFault: 350, bsFault: 30, stallW: 2, packets: true, procs: 2, ops: 8, odd: 700,
		deadline: 100, cancel: 50, wDo: 10, wQuick: 4, wLookup: 1, wCLI: 6, memory: 800, regs: 5, named: 500, sleepy: 30, outFail: 50},
	// the cache objects themselves
	"cache": {procs: 3, ops: 14, caches: true, fsErr: 25, fsDelay: 60, crash: 8, shortRead: 40, sleepy: 350, memory: 300, remove: 20, regs: 3},
}

// draw scales the intensities: each kind of fault is off, normal or heavy in a run.
func (c *Config) draw(st *Stream) {
	lvl := func(x *int, cap int) {
		switch st.W(2, 5, 2) {
		case 0:
			*x = 0
		case 2:
			*x = min(*x*3, cap)
		}
	}
	lvl(&c.fsDelay, 500)
	lvl(&c.crash, 120)
	lvl(&c.fsErr, 200)
	lvl(&c.shortRead, 200)
	lvl(&c.https, 900)
	lvl(&c.slow, 900)
	lvl(&c.rdapFault, 930)
	lvl(&c.bsFault, 700)
	lvl(&c.badTLS, 30)
	lvl(&c.kill, 300)
	lvl(&c.power, 1000)
	lvl(&c.corrupt, 300)
	lvl(&c.remove, 200)
	lvl(&c.netDown, 300)
	lvl(&c.cancel, 600)
	lvl(&c.sleepy, 900)
	lvl(&c.byz, 950)
	c.packets = c.packets && st.P(600)
}

// Cli is one client object of a process.
type Cli struct {
	svc   *Service
	bs    *bootstrap.Client
	rc    *rdap.Client
	store *Store
	ttl   time.Duration
	mem   *cache.MemoryCache
	used  map[*Reg]bool
	held  map[*Reg]*Doc // last document seen through the accessor
	twin  bool          // shares its cache object with another client of the service
}

// Proc is a simulated process.
type Proc struct {
	s    *Sim
	idx  int
	name string
	task *Task
	inc  int
	next int
	nops int

	cli  bool // runs the command line client
	mem  bool
	dir  *DirState
	svcs []*Service
	regs []*Reg
	ttl  time.Duration
	dflt bool // leaves HTTP clients unset
	bare bool // leaves everything unset
	clis []*Cli
	kept []kept
	reqs []*heldReq
	body func(p *Proc, i int)
	fin  func(p *Proc)
	atB  bool
}

func (p *Proc) kill(why string) {
	t := p.task
	if t == nil || t.dead {
		return
	}
	t.dead = true
	close(t.killed)
	if op := t.op; op != nil && !op.done {
		op.killed = true
		op.finish(p.s)
		if op.cancel != nil {
			op.cancel()
		}
	}
	p.s.net.killTask(t)
}

// start starts an incarnation of the process.
func (p *Proc) start() {
	s := p.s
	p.inc++
	t := &Task{name: fmt.Sprintf("%s.%d", p.name, p.inc), proc: p, killed: make(chan struct{}), st: s.tape.S("idle")}
	p.task = t
	s.live++
	go func() {
		t.attach()
		defer func() {
			if r := recover(); r != nil {
				s.violate("C02 C13", "panic", "%s: panic outside of an operation: %v", t.name, r)
			}
			if t.dead && !s.ended && !p.atB {
				p.start() // restart
			}
			s.live--
			s.poke()
		}()
		s.yield(t, "start", 0)
		if p.inc > 1 {
			p.sleep(t, []time.Duration{0, time.Millisecond, time.Second, 10 * time.Minute}[s.tape.S(fmt.Sprintf("%s.r%d", p.name, p.inc)).N(4)])
		}
		p.makeClients()
		for p.next < p.nops && !t.dead && !s.ended {
			i := p.next
			p.next++
			p.body(p, i)
			if t.dead {
				return
			}
		}
		if s.ended || t.dead {
			return
		}
		// Wait for the recovery phase.
		p.atB = true
		s.live--
		s.poke()
		<-s.barrier
		s.yield(t, "recover", 0)
		if !s.ended {
			p.fin(p)
		}
	}()
}

// sleep lets simulated time pass for a process.
func (p *Proc) sleep(t *Task, d time.Duration) {
	if d <= 0 {
		return
	}
	tm := time.NewTimer(d)
	select {
	case <-tm.C:
	case <-t.killed:
		tm.Stop()
	case <-p.s.endCh:
		tm.Stop()
	}
	if t.dead {
		runtime.Goexit()
	}
	p.s.yield(t, "wake", 0)
	if t.dead {
		runtime.Goexit()
	}
}

// makeClients creates the client objects of a (re)started process.
func (p *Proc) makeClients() {
	p.clis = nil
	if p.cli || p.s.prof.cfg.caches {
		return
	}
	var rcache cache.RegistryCache
	var mc *cache.MemoryCache
	store := &Store{name: fmt.Sprintf("memory of %s", p.task.name)}
	if p.mem {
		mc = cache.NewMemoryCache()
		if p.ttl != 24*time.Hour {
			mc.SetTimeout(p.ttl)
		}
		rcache = mc
	} else {
		dc := cache.NewDiskCache()
		dc.Dir = p.dir.path
		if p.ttl != 24*time.Hour {
			dc.SetTimeout(p.ttl)
		}
		rcache = dc
		store = p.s.world.storeOf(p.dir)
	}
	for i, v := range p.svcs {
		c := &Cli{svc: v, store: store, ttl: p.ttl, mem: mc, used: map[*Reg]bool{}, held: map[*Reg]*Doc{}}
		c.bs = &bootstrap.Client{}
		if v.base != "" {
			c.bs.BaseURL = parseURL(v.base)
		}
		c.bs.Cache = rcache
		if i == 0 && p.mem && len(p.svcs) == 1 && p.ttl == 24*time.Hour && p.dflt {
			c.bs.Cache = nil // the default cache
			c.mem = nil
		}
		c.rc = &rdap.Client{Bootstrap: c.bs}
		if p.bare {
			c.bs, c.mem = nil, nil
			c.rc.Bootstrap = nil
		}
		if !p.dflt {
			tr := http.DefaultTransport.(*http.Transport).Clone()
			p.s.transports = append(p.s.transports, tr)
			c.bs.HTTP = &http.Client{Transport: tr}
			c.rc.HTTP = &http.Client{Transport: tr}
		}
		p.clis = append(p.clis, c)
	}
}

func (w *World) storeOf(d *DirState) *Store {
	for _, x := range w.stores {
		if x.dir == d {
			return x
		}
	}
	x := &Store{name: d.path, dir: d}
	w.stores = append(w.stores, x)
	return x
}

// Result of a run.
type Result struct {
	viol    []Violation
	hash    uint64
	states  int
	steps   int
	simTime time.Duration
	trace   []string
	tape    *Tape
	ops     []string
	nontriv bool
}

var baseTransport *http.Transport

// runOne executes one simulated run.
func runOne(profName string, tape *Tape, opts *Options, stats *Stats) *Result {
	base, ok := profiles[profName]
	if !ok {
		panic("unknown profile " + profName)
	}
	prof := &Profile{name: profName, cfg: base}
	cst := tape.S("cfg")
	prof.cfg.draw(cst)
	s := &Sim{tape: tape, sch: tape.S("sched"), prof: prof, opts: opts, wake: make(chan struct{}, 1), faultsOn: true,
		keep: opts.trace, states: map[uint64]struct{}{}, stats: stats}
	f0 := 0
	for _, n := range stats.Faults {
		f0 += n
	}
	sw0 := stats.Switches
	raw(func() {
		os.RemoveAll(opts.root)
		for _, d := range []string{"home", "xdg", "canary", "tmp"} {
			os.MkdirAll(filepath.Join(opts.root, d), 0o700)
		}
	})
	s.rseed = uint64(cst.N(1 << 30))
	runtime.SimSeed(s.rseed)
	bubble(s, func() {
		s.wake = make(chan struct{}, 1)
		s.endCh = make(chan struct{})
		s.barrier = make(chan struct{})
		s.start = time.Now()
		s.fs = newFS(s, opts.root)
		s.net = newNet(s)
		s.world = &World{s: s, pool: newPool(tape.S("pool"))}
		theSim = s
		tr := baseTransport.Clone()
		s.transports = append(s.transports, tr)
		http.DefaultTransport = tr
		s.setup(cst)
		s.loop()
		if !s.ended {
			// Recovery: no faults any more.
			s.faultsOn = false
			s.events = nil
			s.ev("recovery", "faults stop")
			for _, p := range s.procs {
				if p.atB {
					s.live++
				}
			}
			close(s.barrier)
			s.loop()
		} else {
			close(s.barrier)
		}
		if !s.ended {
			s.finalChecks()
		}
		s.stats.SimTime += s.t()
		s.ended = true
		close(s.endCh)
		s.net.closeAll()
		for _, t := range s.transports {
			t.CloseIdleConnections()
		}
		for _, p := range s.parked {
			close(p.ready)
		}
		s.parked = nil
		simrt.Wait()
		s.net.closeAll()
	})
	theSim = nil
	r := &Result{viol: s.viol, hash: s.hash, states: len(s.states), steps: s.steps, trace: s.trace, tape: tape, ops: s.opKeys}
	stats.Runs++
	stats.Steps += s.steps
	n := 0
	for _, c := range stats.Faults {
		n += c
	}
	r.nontriv = n > f0 || stats.Switches > sw0
	return r
}

// bubble runs f on the simulated clock. Goroutines which can never end are leaks.
func bubble(s *Sim, f func()) {
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if !strings.Contains(msg, "deadlock") {
				panic(r)
			}
			s.keep = false
			s.viol = append(s.viol, Violation{Props: []string{"C12"}, Class: "goroutine-leak",
				Msg: "goroutines of the library or of its HTTP transports are left behind, and nothing can ever end them (" + msg + ")"})
		}
	}()
	simrt.Run(f)
}

// setup creates the processes of a run.
func (s *Sim) setup(c *Stream) {
	cfg := &s.prof.cfg
	os.Setenv("HOME", filepath.Join(s.opts.root, "home"))
	os.Setenv("XDG_CACHE_HOME", filepath.Join(s.opts.root, "xdg"))
	nd := 1
	if c.P(200) {
		nd = 2
	}
	var dirs []*DirState
	for i := 0; i < nd; i++ {
		d := &DirState{path: filepath.Join(s.opts.root, fmt.Sprintf("cache%d", i)), removed: map[string]uint64{}}
		s.fs.dirs[d.path] = d
		dirs = append(dirs, d)
	}
	// The default cache directory.
	d := &DirState{path: filepath.Join(s.opts.root, "xdg", "openrdap"), removed: map[string]uint64{}}
	if c.P(300) {
		os.Setenv("XDG_CACHE_HOME", []string{"", "relative/dir"}[c.N(2)])
		d.path = filepath.Join(s.opts.root, "home", ".cache", "openrdap")
	}
	s.fs.dirs[d.path] = d
	s.defaultDir = d
	if !c.P(500) {
		for _, x := range dirs {
			raw(func() { os.MkdirAll(x.path, 0o700) })
		}
	}
	// A few registries and services, so that histories meet.
	nr := 1 + c.N(min(cfg.regs, len(regs)))
	var rs []*Reg
	off := c.N(len(regs))
	for i := 0; i < nr; i++ {
		rs = append(rs, regs[(off+i)%len(regs)])
	}
	nsvc := 1 + c.W(6, 3, 1)
	var vs []*Service
	pool := []int{0, 1, 2, 10, 11, 3, 4, 0, 6, 7, 8, 1, 9, 12, 13, 14}
	off = c.N(len(pool))
	for i := 0; i < nsvc; i++ {
		vs = append(vs, services[pool[(off+i)%len(pool)]])
	}
	ttls := []time.Duration{time.Hour, time.Minute, 24 * time.Hour, 10 * time.Minute, 0}
	ttl0 := ttls[c.W(12, 9, 9, 6, 1)]
	np := 1 + c.N(cfg.procs)
	sum := cfg.wLookup + cfg.wDo + cfg.wQuick + cfg.wDownload + cfg.wAcc
	for i := 0; i < np; i++ {
		p := &Proc{s: s, idx: i, name: fmt.Sprintf("p%d", i), regs: rs, nops: 1 + c.N(cfg.ops)}
		p.dir = dirs[c.N(len(dirs))]
		p.ttl = ttl0
		if c.P(250) {
			p.ttl = ttls[c.W(4, 4, 4, 4, 1)]
		}
		p.svcs = []*Service{vs[c.N(len(vs))]}
		if len(vs) > 1 && c.P(cfg.multi) {
			p.svcs = []*Service{vs[0], vs[1]}
		}
		p.mem = c.P(cfg.memory)
		p.cli = sum == 0 || (cfg.wCLI > 0 && c.P(1000*cfg.wCLI/(sum+cfg.wCLI)))
		p.dflt = i == 0 && c.P(300)
		if i == 0 && !cfg.caches && cfg.wDo > 0 && c.P(60) {
			p.bare, p.dflt, p.mem, p.ttl, p.svcs = true, true, true, 24*time.Hour, services[:1]
			p.cli = false
		}
		p.body = runLibOp
		p.fin = recoverLib
		if p.cli {
			p.body = runCLIOp
			p.fin = recoverCLI
		}
		if cfg.caches {
			p.cli = false
			p.body = runCacheOp
			p.fin = func(p *Proc) {}
		}
		s.procs = append(s.procs, p)
	}
	if cfg.caches {
		s.cm = newCacheModel(s)
	}
	if cfg.power > 0 && c.P(cfg.power) {
		at := []time.Duration{time.Millisecond, time.Second, time.Minute, time.Hour, 2 * time.Hour}[c.N(5)]
		s.at(s.now().Add(at), func() {
			if !s.faultsOn {
				return
			}
			s.ev("power", "power loss")
			s.stats.fault("power-loss")
			for _, p := range s.procs {
				if !p.atB {
					p.kill("power loss")
				}
			}
			s.fs.powerLoss(s.tape.S("power"))
		})
	}
	for _, p := range s.procs {
		p.start()
	}
}

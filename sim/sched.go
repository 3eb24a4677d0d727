package main

import (
	"fmt"
	"hash/fnv"
	"net/http"
	"runtime"
	"simrt"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Sim is one simulated run: a bubble with a fake clock, whose main goroutine
// is the scheduler. Every goroutine of the code under test carries the label
// of the Task it belongs to; at each seam it parks, and the scheduler resumes
// exactly one parked goroutine at a time, chosen from the tape.
type Sim struct {
	tape   *Tape
	sch    *Stream
	prof   *Profile
	opts   *Options
	rseed  uint64 // of the runtime's random numbers
	parked []*parkRec
	events []*timedEvent
	evSeq  int
	wake   chan struct{}
	live   int // unfinished tasks
	seq    uint64
	steps  int

	faultsOn bool
	ended    bool
	aborted  string

	trace   []string
	keep    bool
	hash    uint64
	states  map[uint64]struct{}
	stats   *Stats
	viol    []Violation
	endCh   chan struct{}
	servers int // running server goroutines

	fs    *FS
	net   *Net
	world *World
	procs []*Proc
	start time.Time

	barrier    chan struct{}
	transports []*http.Transport
	opKeys     []string
	ops        []*Op
	defaultDir *DirState
	cm         *cacheModel
}

type Violation struct {
	Props []string `json:"props"`
	Class string   `json:"class"`
	Msg   string   `json:"msg"`
}

// Task is the identity of a goroutine of the code under test.
type Task struct {
	name   string
	proc   *Proc
	op     *Op
	st     *Stream
	dead   bool
	killed chan struct{}
}

type parkRec struct {
	task      *Task
	what      string
	ready     chan struct{}
	notBefore time.Time
	try       func() bool
	ord       uint64
}

type timedEvent struct {
	at  time.Time
	seq int
	f   func()
}

const (
	maxSteps = 6000
	slack    = time.Millisecond
)

func curTask() *Task { return (*Task)(runtime.SimGetLabel()) }

func (t *Task) attach() { runtime.SimSetLabel(unsafe.Pointer(t)) }

func (s *Sim) now() time.Time { return time.Now() }

func (s *Sim) t() time.Duration { return time.Since(s.start) }

func (s *Sim) nextSeq() uint64 { s.seq++; return s.seq }

func (s *Sim) ev(kind string, format string, args ...any) {
	s.mix(kind)
	if s.keep {
		s.trace = append(s.trace, fmt.Sprintf("%5d %14s  %-9s %s", s.seq, fmtDur(s.t()), kind, fmt.Sprintf(format, args...)))
	}
}

func fmtDur(d time.Duration) string { return d.String() }

func (s *Sim) mix(x string) {
	h := fnv.New64a()
	var b [8]byte
	for i := range b {
		b[i] = byte(s.hash >> (8 * i))
	}
	h.Write(b[:])
	h.Write([]byte(x))
	s.hash = h.Sum64()
	s.states[s.hash] = struct{}{}
}

// violate records a violation of the given properties.
func (s *Sim) violate(props string, class string, format string, args ...any) {
	p := strings.Fields(props)
	for _, v := range s.viol {
		if v.Class == class && strings.Join(v.Props, " ") == props {
			return
		}
	}
	v := Violation{Props: p, Class: class, Msg: fmt.Sprintf(format, args...)}
	s.viol = append(s.viol, v)
	s.ev("VIOLATION", "%s [%s] %s", props, class, v.Msg)
}

// at schedules f to run on the scheduler at the given time.
func (s *Sim) at(when time.Time, f func()) {
	s.evSeq++
	s.events = append(s.events, &timedEvent{when, s.evSeq, f})
	s.poke()
}

func (s *Sim) poke() {
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

// yield parks the calling goroutine until the scheduler picks it.
func (s *Sim) yield(t *Task, what string, delay time.Duration) {
	s.parkOn(t, what, delay, nil)
}

func (s *Sim) parkOn(t *Task, what string, delay time.Duration, try func() bool) {
	if s.ended {
		return
	}
	p := &parkRec{task: t, what: what, ready: make(chan struct{}), notBefore: s.now().Add(delay), try: try, ord: s.nextSeq()}
	s.parked = append(s.parked, p)
	s.poke()
	<-p.ready
}

// loop is the scheduler. It returns when all tasks have finished.
func (s *Sim) loop() {
	for {
		simrt.Wait()
		select {
		case <-s.wake:
		default:
		}
		if s.live == 0 {
			return
		}
		now := s.now()
		// World events first, in order.
		sort.SliceStable(s.events, func(i, j int) bool {
			if !s.events[i].at.Equal(s.events[j].at) {
				return s.events[i].at.Before(s.events[j].at)
			}
			return s.events[i].seq < s.events[j].seq
		})
		if len(s.events) > 0 && !s.events[0].at.After(now) {
			e := s.events[0]
			s.events = s.events[1:]
			e.f()
			continue
		}
		var run []*parkRec
		for _, p := range s.parked {
			if !p.notBefore.After(now) {
				run = append(run, p)
			}
		}
		sort.Slice(run, func(i, j int) bool { return run[i].ord < run[j].ord })
		progressed := false
		for len(run) > 0 {
			i := s.sch.N(len(run))
			if len(run) > 1 {
				s.stats.Switches++
			}
			p := run[i]
			if p.try != nil && !p.try() {
				run = append(run[:i], run[i+1:]...)
				continue
			}
			for j, q := range s.parked {
				if q == p {
					s.parked = append(s.parked[:j], s.parked[j+1:]...)
					break
				}
			}
			s.steps++
			s.mix(p.task.name)
			// How often the runtime draws random numbers may depend on the
			// contents of pools, hence on earlier runs: start afresh.
			runtime.SimSeed(s.rseed + uint64(s.steps)<<32)
			if s.steps > maxSteps {
				s.abort("more than %d scheduling steps in one run", maxSteps)
			}
			close(p.ready)
			progressed = true
			break
		}
		if progressed {
			continue
		}
		// Nothing can run now: let time pass until something can.
		var next time.Time
		for _, p := range s.parked {
			if p.notBefore.After(now) && (next.IsZero() || p.notBefore.Before(next)) {
				next = p.notBefore
			}
		}
		if len(s.events) > 0 && (next.IsZero() || s.events[0].at.Before(next)) {
			next = s.events[0].at
		}
		if next.IsZero() {
			// Only the code's own timers or the servers can make progress.
			next = now.Add(400 * 24 * time.Hour)
			tm := time.NewTimer(next.Sub(now))
			select {
			case <-s.wake:
				tm.Stop()
			case <-tm.C:
				if s.live > 0 && len(s.parked) == 0 {
					s.hang()
					return
				}
			}
			continue
		}
		tm := time.NewTimer(next.Sub(now))
		select {
		case <-s.wake:
			tm.Stop()
		case <-tm.C:
		}
	}
}

// hang reports the operations which can no longer make progress.
func (s *Sim) hang() {
	for _, p := range s.procs {
		if p.task != nil && p.task.op != nil && !p.task.dead && !p.task.op.done {
			s.violate(p.task.op.mustReturn()+" C03", "hang", "%s never returns: %s", p.task.op.key, p.task.op.desc)
		}
	}
	s.aborted = "hang"
	s.shutdown()
}

func (s *Sim) abort(format string, args ...any) {
	if s.aborted == "" {
		s.aborted = fmt.Sprintf(format, args...)
		s.violate("C01 C03 C05 C13", "unbounded", "%s", s.aborted)
		s.shutdown()
	}
}

// shutdown makes every seam fail from now on.
func (s *Sim) shutdown() {
	s.ended = true
	for _, p := range s.parked {
		close(p.ready)
	}
	s.parked = nil
	s.net.closeAll()
	for _, p := range s.procs {
		if p.task != nil {
			p.task.dead = true
			if p.task.op != nil && p.task.op.cancel != nil {
				p.task.op.cancel()
			}
		}
	}
}

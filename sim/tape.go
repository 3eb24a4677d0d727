package main

import (
	"hash/fnv"
	"sort"
)

// The decision tape. Every nondeterministic choice of a run (schedules,
// delays, faults, generated operations and documents) is one value drawn here,
// so a run is a pure function of (code, profile, tape). In generation mode the
// values come from a PRNG seeded with the run's seed; in replay mode from a
// recorded tape. Value 0 always means the simplest alternative (no fault,
// first task, shortest list).
//
// The tape is split into named streams (run configuration, scheduler, one per
// operation), so that minimisation can drop an operation without shifting the
// meaning of the choices of the others.

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) intn(n int) int { return int(r.next() % uint64(n)) }

type Tape struct {
	seed    uint64
	replay  map[string][]uint32
	isRep   bool
	drop    map[string]bool
	streams map[string]*Stream
}

type Stream struct {
	r      rng
	replay []uint32
	isRep  bool
	rec    []uint32
}

func newTape(seed uint64) *Tape {
	return &Tape{seed: seed, streams: map[string]*Stream{}, drop: map[string]bool{}}
}

func replayTape(vals map[string][]uint32, drop []string) *Tape {
	t := &Tape{replay: vals, isRep: true, streams: map[string]*Stream{}, drop: map[string]bool{}}
	for _, d := range drop {
		t.drop[d] = true
	}
	return t
}

// S returns the stream with the given name.
func (t *Tape) S(name string) *Stream {
	s := t.streams[name]
	if s == nil {
		h := fnv.New64a()
		h.Write([]byte(name))
		s = &Stream{r: rng{s: t.seed*0x9e3779b97f4a7c15 ^ h.Sum64()}, isRep: t.isRep, replay: t.replay[name]}
		s.r.next()
		t.streams[name] = s
	}
	return s
}

// Dropped reports whether minimisation removed the operation.
func (t *Tape) Dropped(name string) bool { return t.drop[name] }

func (t *Tape) names() []string {
	var n []string
	for k := range t.streams {
		n = append(n, k)
	}
	sort.Strings(n)
	return n
}

// recorded returns the values drawn, without trailing zeros.
func (t *Tape) recorded() map[string][]uint32 {
	m := map[string][]uint32{}
	for k, s := range t.streams {
		v := s.rec
		for len(v) > 0 && v[len(v)-1] == 0 {
			v = v[:len(v)-1]
		}
		if len(v) > 0 {
			m[k] = append([]uint32(nil), v...)
		}
	}
	return m
}

const maxStream = 20000

func (t *Stream) draw(n int, gen func() int) int {
	v := 0
	if t.isRep {
		if len(t.rec) < len(t.replay) {
			v = int(t.replay[len(t.rec)]) % n
		}
	} else if n > 1 && len(t.rec) < maxStream {
		v = gen()
	}
	t.rec = append(t.rec, uint32(v))
	return v
}

// N draws uniformly from 0..n-1.
func (t *Stream) N(n int) int {
	if n <= 1 {
		return 0
	}
	return t.draw(n, func() int { return t.r.intn(n) })
}

// P draws true with probability num/1000.
func (t *Stream) P(num int) bool {
	if num <= 0 {
		return false
	}
	return t.draw(2, func() int {
		if t.r.intn(1000) < num {
			return 1
		}
		return 0
	}) == 1
}

// W draws an index with the given weights.
func (t *Stream) W(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	if sum == 0 {
		return 0
	}
	i := t.draw(len(w), func() int {
		k := t.r.intn(sum)
		for i, x := range w {
			if k < x {
				return i
			}
			k -= x
		}
		return 0
	})
	if w[i] == 0 { // only reachable by replaying an edited tape
		for j, x := range w {
			if x > 0 {
				return j
			}
		}
	}
	return i
}

package main

import (
	"bytes"
	"fmt"
	"path/filepath"
	"time"

	"github.com/openrdap/rdap/bootstrap/cache"
)

// The cache objects themselves, against a reference model of a register with
// a state (property C18, and the all-or-nothing part of C07).

// version is one document given to Save.
type version struct {
	id    int
	reg   *cacheReg
	bytes []byte
	op    *Op
	obj   *cacheObj
	err   error
	ok    bool   // Save returned nil
	gone  uint64 // known not to be in the register from here on
}

// cacheReg is one file name in one store.
type cacheReg struct {
	store *Store
	name  string
	vers  []*version
	rm    []uint64 // outside removals
}

// cacheObj is one cache object of a process.
type cacheObj struct {
	c     cache.RegistryCache
	dir   *DirState // nil: memory
	store *Store
	ttl   time.Duration
	seen  map[string]*seenVer
}

type seenVer struct {
	v        *version
	from, to uint64 // of the operation
}

type cacheModel struct {
	s    *Sim
	regs []*cacheReg
	objs map[*Proc][]*cacheObj
	incs map[*Proc]int
	n    int
}

func newCacheModel(s *Sim) *cacheModel {
	return &cacheModel{s: s, objs: map[*Proc][]*cacheObj{}, incs: map[*Proc]int{}}
}

func (m *cacheModel) reg(st *Store, name string) *cacheReg {
	for _, r := range m.regs {
		if r.store == st && r.name == name {
			return r
		}
	}
	r := &cacheReg{store: st, name: name}
	m.regs = append(m.regs, r)
	return r
}

var cacheNames = []string{"dns.json", "asn.json", "ipv4.json", "ipv6.json", "a1b2c3_dns.json", "object-tags.json"}

func (m *cacheModel) make(p *Proc) []*cacheObj {
	if m.incs[p] == p.inc {
		return m.objs[p]
	}
	m.incs[p] = p.inc
	st := m.s.tape.S(fmt.Sprintf("%s.c%d", p.name, p.inc))
	var l []*cacheObj
	for i := 0; i < 1+st.N(2); i++ {
		o := &cacheObj{ttl: 24 * time.Hour, seen: map[string]*seenVer{}}
		if p.mem {
			o.c = cache.NewMemoryCache()
			o.store = &Store{name: fmt.Sprintf("memory%d of %s", i, p.task.name)}
		} else {
			dc := cache.NewDiskCache()
			dc.Dir = p.dir.path
			o.c, o.dir = dc, p.dir
			o.store = m.s.world.storeOf(p.dir)
		}
		l = append(l, o)
	}
	m.objs[p] = l
	return l
}

// ended returns the sequence number at which v's save was over, 0 if running.
func (v *version) ended() uint64 {
	if v.op.ended {
		return v.op.endSeq
	}
	return 0
}

// possible lists the versions which can be in the register at some moment of
// [from, to], and whether it can be empty.
func (r *cacheReg) possible(from, to uint64) (l []*version, absent bool) {
	absent = true
	lastRm := uint64(0)
	for _, x := range r.rm {
		if x < from {
			lastRm = x
		}
	}
	rmDuring := false
	for _, x := range r.rm {
		if x >= from && x <= to {
			rmDuring = true
		}
	}
	for _, v := range r.vers {
		if v.op.startSeq > to || v.gone != 0 && v.gone <= from {
			continue
		}
		e := v.ended()
		if v.ok && e != 0 && e < from && v.op.startSeq > lastRm {
			absent = false
		}
		if e != 0 && e < lastRm {
			continue
		}
		over := false
		for _, w := range r.vers {
			if w != v && w.ok && w.ended() != 0 && w.ended() < from && e != 0 && w.op.startSeq > e {
				over = true
			}
		}
		if !over {
			l = append(l, v)
		}
	}
	return l, absent || rmDuring
}

func runCacheOp(p *Proc, i int) {
	s := p.s
	m := s.cm
	key := fmt.Sprintf("%s.o%d", p.name, i)
	if s.tape.Dropped(key) {
		return
	}
	objs := m.make(p)
	st := s.tape.S(key)
	p.task.st = st
	p.pause(st)
	if cfg := &s.prof.cfg; s.faultsOn && !p.mem && cfg.remove > 0 && st.P(cfg.remove) {
		if l := s.fs.list(p.dir.path); len(l) > 0 {
			f := l[st.N(len(l))]
			s.ev("remove", "%s", s.fs.rel(f))
			s.stats.fault("cache-file-removed")
			s.fs.outside(f, nil, true)
			r := m.reg(s.world.storeOf(p.dir), filepath.Base(f))
			r.rm = append(r.rm, s.nextSeq())
		}
	}
	o := objs[st.N(len(objs))]
	names := cacheNames[:1+len(p.regs)]
	name := names[st.N(len(names))]
	r := m.reg(o.store, name)
	switch st.W(5, 5, 8, 2) {
	case 0:
		m.save(p, o, r, key)
	case 1:
		m.load(p, o, r, key)
	case 2:
		m.state(p, o, r, key)
	case 3:
		d := []time.Duration{time.Hour, time.Minute, 24 * time.Hour, 0, 10 * time.Minute, time.Second}[st.N(6)]
		op := p.begin(key, "cache-set-timeout")
		op.desc = fmt.Sprintf("SetTimeout(%s) on %s", d, o.store.name)
		op.run(func() { o.c.SetTimeout(d) })
		if op.killed || s.ended {
			op.drop(s)
			return
		}
		o.ttl = d
	}
}

func (m *cacheModel) save(p *Proc, o *cacheObj, r *cacheReg, key string) {
	s := m.s
	op := p.begin(key, "cache-save")
	op.store = o.store
	m.n++
	size := []int{40, 0, 4000, 1, 200000}[op.st.W(6, 1, 3, 1, 1)]
	data := []byte(fmt.Sprintf("<version %d of %s>", m.n, r.name))
	for len(data) < size {
		data = append(data, byte('a'+len(data)%17))
	}
	if size == 0 && len(r.vers) == 0 {
		data = nil // an empty file is a file, too
	}
	if n := len(r.vers); n > 0 && op.st.P(150) {
		// The document has not changed, but it has been saved again.
		data = append([]byte(nil), r.vers[n-1].bytes...)
	}
	op.desc = fmt.Sprintf("Save(%s, v%d: %d bytes) in %s", r.name, m.n, len(data), o.store.name)
	v := &version{id: m.n, reg: r, bytes: append([]byte(nil), data...), op: op, obj: o}
	r.vers = append(r.vers, v)
	op.startSeq = s.nextSeq()
	op.start = s.now()
	op.run(func() { v.err = o.c.Save(r.name, data) })
	if op.killed || s.ended {
		op.drop(s)
		return
	}
	s.ev("end", "%s err=%v", op.key, v.err)
	for i := range data { // the caller's buffer is the caller's
		data[i] = 'X'
	}
	s.stats.check("C18 C07")
	v.ok = v.err == nil
	if v.ok {
		o.seen[r.name] = &seenVer{v, op.startSeq, op.endSeq}
		if op.sawWriteFault {
			s.violate("C18 C07", "save-failure-hidden", "%s %s reports success, though a needed system call failed", op.key, op.desc)
		}
	} else if !op.sawFSFault && !r.rmIn(op) {
		s.violate("C18", "save-failed", "%s %s fails without cause: %v", op.key, op.desc, v.err)
	}
	m.probeReg(r, op)
}

func (r *cacheReg) rmIn(op *Op) bool {
	if r.store.dir != nil && r.store.dir.disturbed >= op.startSeq {
		return true
	}
	return false
}

func (m *cacheModel) load(p *Proc, o *cacheObj, r *cacheReg, key string) {
	s := m.s
	op := p.begin(key, "cache-load")
	op.store = o.store
	op.desc = fmt.Sprintf("Load(%s) from %s", r.name, o.store.name)
	var data []byte
	var err error
	op.run(func() { data, err = o.c.Load(r.name) })
	if op.killed || s.ended {
		op.drop(s)
		return
	}
	s.ev("end", "%s %d bytes %q err=%v", op.key, len(data), clipStr(string(data), 30), err)
	s.stats.check("C18 C07")
	l, absent := r.possible(op.startSeq, op.endSeq)
	if err != nil {
		if !absent && !op.sawFSFault {
			s.violate("C18", "load-failed", "%s %s fails (%v), though a document was saved", op.key, op.desc, err)
		}
		return
	}
	if v := m.checkBytes(r, l, data, op.key+" "+op.desc); v != nil {
		o.seen[r.name] = &seenVer{v, op.startSeq, op.endSeq}
	}
	for i := range data {
		data[i] = 'Y'
	}
}

func (m *cacheModel) checkBytes(r *cacheReg, l []*version, data []byte, what string) *version {
	for _, v := range l {
		if bytes.Equal(v.bytes, data) {
			return v
		}
	}
	why, props := "is no saved document", "C18"
	for _, x := range m.regs {
		for _, v := range x.vers {
			switch {
			case !bytes.Equal(v.bytes, data):
				if x == r && len(data) < len(v.bytes) && bytes.HasPrefix(v.bytes, data) {
					why, props = fmt.Sprintf("is a part of version v%d", v.id), "C18 C07"
				}
			case x != r:
				why = fmt.Sprintf("was saved as %s in %s", x.name, x.store.name)
			default:
				why = fmt.Sprintf("is version v%d, which had been replaced or removed", v.id)
			}
		}
	}
	m.s.violate(props, "load-content", "%s returns %d bytes (%q), which %s", what, len(data), clipStr(string(data), 50), why)
	return nil
}

func (m *cacheModel) state(p *Proc, o *cacheObj, r *cacheReg, key string) {
	s := m.s
	op := p.begin(key, "cache-state")
	op.store = o.store
	op.desc = fmt.Sprintf("State(%s) of %s (timeout %s)", r.name, o.store.name, o.ttl)
	var got cache.FileState
	op.run(func() { got = o.c.State(r.name) })
	if op.killed || s.ended {
		op.drop(s)
		return
	}
	s.ev("end", "%s %v", op.key, got)
	s.stats.check("C18")
	if op.sawFSFault {
		return
	}
	l, absent := r.possible(op.startSeq, op.endSeq)
	ok := map[cache.FileState]bool{}
	if absent {
		ok[cache.Absent] = true
	}
	var why string
	for _, v := range l {
		lo := v.op.start
		hi := v.op.end
		if !v.op.ended {
			hi = s.now()
		}
		sl := time.Microsecond
		expired := op.end.Sub(lo) >= o.ttl-sl
		fresh := op.start.Sub(hi) <= o.ttl+sl
		if expired {
			ok[cache.Expired] = true
		}
		why += fmt.Sprintf("; v%d saved %s before", v.id, op.end.Sub(hi))
		if !fresh {
			continue
		}
		sv := o.seen[r.name]
		switch {
		case o.dir == nil:
			ok[cache.Good] = true
		case sv == nil:
			ok[cache.ShouldReload] = true
			if v.obj == o { // a failed save of its own
				ok[cache.Good] = true
			}
		case sv.v == v:
			ok[cache.Good] = true
			if v.ended() == 0 || v.ended() > sv.from && sv.from != v.op.startSeq {
				ok[cache.ShouldReload] = true // loaded while it was being saved
			}
		case bytes.Equal(sv.v.bytes, v.bytes): // saved again
			ok[cache.Good] = true
			ok[cache.ShouldReload] = true
		default:
			ok[cache.ShouldReload] = true
			if v.obj == o { // a failed save of its own
				ok[cache.Good] = true
			}
		}
	}
	if !ok[got] {
		s.violate("C18", "state", "%s %s is %v%s", op.key, op.desc, got, why)
	}
}

// probeReg loads the register with a fresh object.
func (m *cacheModel) probeReg(r *cacheReg, op *Op) {
	if r.store.dir == nil {
		return
	}
	var data []byte
	var err error
	raw(func() {
		c := cache.NewDiskCache()
		c.Dir = r.store.dir.path
		data, err = c.Load(r.name)
	})
	m.s.stats.Probes++
	from := m.s.nextSeq()
	l, absent := r.possible(from, from)
	if err != nil {
		m.goneAfter(r, nil, from)
		if !absent {
			m.s.violate("C18 C07", "document-lost", "after %s %s, %s cannot be loaded (%v), though it was saved", op.key, op.desc, r.name, err)
		}
		return
	}
	m.goneAfter(r, data, from)
	m.checkBytes(r, l, data, fmt.Sprintf("loading %s with another cache object after %s", r.name, op.key))
}

// goneAfter notes the versions which are over and not what was found.
func (m *cacheModel) goneAfter(r *cacheReg, data []byte, seq uint64) {
	for _, v := range r.vers {
		if e := v.ended(); e != 0 && e <= seq && v.gone == 0 && !bytes.Equal(v.bytes, data) {
			v.gone = seq
		}
	}
}

// probe is called after each change to a cache directory.
func (m *cacheModel) probe(d *DirState, path string, t *Task) {
	if filepath.Dir(path) != d.path || t.op == nil {
		return
	}
	name := filepath.Base(path)
	for _, r := range m.regs {
		if r.store.dir == d && r.name == name {
			m.probeReg(r, t.op)
		}
	}
}

func (m *cacheModel) final() {
	for _, r := range m.regs {
		if len(r.vers) > 0 {
			m.probeReg(r, r.vers[len(r.vers)-1].op)
		}
	}
}

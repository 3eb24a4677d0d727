package main

import (
	"context"
	"fmt"
	"net/url"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
)

// Op is one operation of a process: a library call or a CLI invocation.
type Op struct {
	key, desc string
	kind      string
	st        *Stream
	proc      *Proc
	task      *Task
	store     *Store
	svc       *Service
	ttl       time.Duration
	done      bool
	killed    bool
	ended     bool
	cancel    func()

	contacts []*Contact
	reqs     []*ReqLog

	startSeq, endSeq uint64
	start, end       time.Time
	tag              string    // further property the operation is about
	agent            string    // user agent the requests carry
	twin             bool      // the client shares its cache object with another of the same service
	limit            time.Time // deadline or cancellation; zero if none
	cancelled        bool      // limit is a cancellation

	fsDelay       time.Duration
	fsFaults      bool
	sawFSFault    bool
	sawWriteFault bool     // a call needed for saving failed
	unlinked      []string // complete documents the operation removed from a cache directory
	netDown       bool
	insecure      bool
	final         bool
	bodies0       int
	access0       int
}

// mustReturn lists the properties which a panic or hang of the operation breaks.
func (o *Op) mustReturn() string {
	switch o.kind {
	case "cli":
		return "C01 C02 C13 C06 C07 C14 C19 C20 C21 C22 C23 C24"
	case "do", "quick":
		return "C01 C02 C06 C07 C13 C19 C20 C21 C22 C23"
	case "cache-set-timeout", "cache-save", "cache-load", "cache-state":
		return "C07 C18"
	}
	return "C02 C06 C07 C13 C19"
}

func (o *Op) canStall() bool { return !o.limit.IsZero() }

func (o *Op) finish(s *Sim) {
	if !o.ended {
		o.ended = true
		o.end = s.now()
		o.endSeq = s.nextSeq()
	}
}

// expired reports whether the time of the operation was up when it ended.
func (o *Op) expired() bool { return !o.limit.IsZero() && !o.end.Before(o.limit) }

// Query is a generated query together with what is expected of it.
type Query struct {
	typ    rdap.RequestType
	text   string // query text
	reg    *Reg   // registry needed; nil if not bootstrapped
	path   string // path below the server URL
	vals   url.Values
	params url.Values
	server string // named server
	raw    bool   // server is the whole URL
	weird  bool   // needs escaping
	auto   bool   // the client finds out the type of the text asked
	asked  string
	roles  []string
	bad    string // "unsupported", "input": fails without network use
	class  string
}

func (q *Query) urlAt(base string) string {
	if q.raw {
		return base
	}
	return expectURL(base, q.path, q.params, q.vals)
}

func (q *Query) String() string {
	x := fmt.Sprintf("%s %q", q.typ, q.text)
	if q.auto {
		x = fmt.Sprintf("auto %q", q.asked)
	}
	if q.server != "" {
		x += " at " + q.server
	}
	return x
}

type heldReq struct {
	q   *Query
	req *rdap.Request
}

var directServers = []string{"http://direct.test/rdap/", "http://direct.test/y/?z=1#frag", "https://direct.test/", "http://direct.test", "http://direct.test/x?token=t1", "http://direct.test/x/?a=1&b=2", "https://192.0.2.77/rdap/", "http://192.0.2.77/"}

// genQuery makes a query against one of the process's registries.
func genQuery(st *Stream, rs []*Reg, named int, w *World) *Query {
	q := &Query{}
	odd := w.s.prof.cfg.odd
	if odd > 0 && named >= 0 && st.P(odd/3) {
		return genAuto(st, rs, named, w)
	}
	if named > 0 && st.P(named) {
		switch st.W(5, 3, 2, 1) {
		case 0: // named server
			types := []rdap.RequestType{rdap.DomainRequest, rdap.NameserverRequest, rdap.HelpRequest, rdap.EntityRequest, rdap.AutnumRequest, rdap.IPRequest,
				rdap.DomainSearchRequest, rdap.DomainSearchByNameserverRequest, rdap.DomainSearchByNameserverIPRequest, rdap.NameserverSearchRequest,
				rdap.NameserverSearchByNameserverIPRequest, rdap.EntitySearchRequest, rdap.EntitySearchByHandleRequest, rdap.AutnumSearchRequest}
			fillQuery(q, types[st.N(len(types))], st)
			q.reg = nil
			q.server = directServers[st.N(len(directServers))]
			if st.P(300) {
				q.params = url.Values{"extra": {"e1"}}
			}
			if odd > 0 && st.P(odd) {
				q.oddText(st)
				if st.N(2) == 1 {
					q.server = oddServers[st.N(len(oddServers))]
				}
				if st.N(2) == 1 {
					q.params = oddParams(st)
				}
			}
		case 1: // raw URL
			q.typ, q.raw = rdap.RawRequest, true
			q.server = []string{"http://direct.test/domain/example.com", "https://direct.test/a/domain/x.com?k=v", "http://direct.test/autnum/1", "https://192.0.2.77/domain/y.com"}[st.N(4)]
			if odd > 0 && st.P(odd) {
				q.server = oddURLs[st.N(len(oddURLs))]
			}
		case 2: // unsupported without a server
			types := []rdap.RequestType{rdap.NameserverRequest, rdap.HelpRequest, rdap.DomainSearchRequest, rdap.EntitySearchRequest, rdap.NameserverSearchByNameserverIPRequest, rdap.EntitySearchByHandleRequest}
			fillQuery(q, types[st.N(len(types))], st)
			q.bad = "unsupported"
		case 3: // no URL can be constructed
			q.typ, q.text, q.path = rdap.IPRequest, "10.0.0.0/%zz", "ip/10.0.0.0/%zz"
			q.server = directServers[0]
			q.bad = "input"
		}
		return q
	}
	r := rs[st.N(len(rs))]
	var typ rdap.RequestType
	switch r.id {
	case "dns":
		typ = rdap.DomainRequest
	case "ip4", "ip6":
		typ = rdap.IPRequest
	case "asn":
		typ = rdap.AutnumRequest
	case "tag":
		typ = rdap.EntityRequest
	}
	q.typ = typ
	q.reg = r
	l := w.pool.qs[r.id]
	if x := weird[r.id]; x != nil && st.P(60) {
		l, q.weird = x, true
	}
	q.text = l[st.N(len(l))]
	q.path = pathFor(typ, q.text)
	if st.P(60) {
		q.params = url.Values{"extra": {"e1", "e2"}}
	}
	if odd > 0 && st.P(odd) {
		q.oddText(st)
		if st.P(300) {
			q.params = oddParams(st)
		}
	}
	if st.P(60) {
		q.roles = [][]string{{"all"}, {"registrant", "billing"}, {}}[st.N(3)]
	}
	return q
}

func pathFor(typ rdap.RequestType, text string) string {
	switch typ {
	case rdap.DomainRequest:
		return "domain/" + escPath(text)
	case rdap.IPRequest:
		return "ip/" + text
	case rdap.AutnumRequest:
		return "autnum/" + escPath(text)
	case rdap.EntityRequest:
		return "entity/" + escPath(text)
	case rdap.NameserverRequest:
		return "nameserver/" + escPath(text)
	case rdap.HelpRequest:
		return "help"
	}
	return ""
}

func fillQuery(q *Query, typ rdap.RequestType, st *Stream) {
	q.typ = typ
	pick := func(l ...string) string { return l[st.N(len(l))] }
	switch typ {
	case rdap.DomainRequest:
		q.text = pick("example.com", "a.b.example.net")
	case rdap.NameserverRequest:
		q.text = pick("ns1.example.com", "ns2.example.net")
	case rdap.EntityRequest:
		q.text = pick("X-ARIN", "HANDLE")
	case rdap.AutnumRequest:
		q.text = pick("200", "65000")
	case rdap.IPRequest:
		q.text = pick("192.0.2.1", "2001:db8::1", "10.0.0.0/8")
	case rdap.HelpRequest:
	case rdap.DomainSearchRequest:
		q.text, q.path = "exam*.com", "domains"
		q.vals = url.Values{"name": {q.text}}
	case rdap.DomainSearchByNameserverRequest:
		q.text, q.path = "ns1.*", "domains"
		q.vals = url.Values{"nsLdhName": {q.text}}
	case rdap.DomainSearchByNameserverIPRequest:
		q.text, q.path = "192.0.2.1", "domains"
		q.vals = url.Values{"nsIp": {q.text}}
	case rdap.NameserverSearchRequest:
		q.text, q.path = "ns1.*", "nameservers"
		q.vals = url.Values{"name": {q.text}}
	case rdap.NameserverSearchByNameserverIPRequest:
		q.text, q.path = "192.0.2.1", "nameservers"
		q.vals = url.Values{"ip": {q.text}}
	case rdap.EntitySearchRequest:
		q.text, q.path = "Bob*", "entities"
		q.vals = url.Values{"fn": {q.text}}
	case rdap.EntitySearchByHandleRequest:
		q.text, q.path = "H-1*", "entities"
		q.vals = url.Values{"handle": {q.text}}
	case rdap.AutnumSearchRequest:
		q.text, q.path = "AS60*", "autnums"
		q.vals = url.Values{"handle": {q.text}}
	}
	if q.path == "" {
		q.path = pathFor(typ, q.text)
	}
}

func (q *Query) request() *rdap.Request {
	r := &rdap.Request{Type: q.typ, Query: q.text}
	if q.auto {
		r = rdap.NewAutoRequest(q.asked)
	}
	if q.roles != nil {
		r.FetchRoles = append([]string(nil), q.roles...)
	}
	if q.server != "" && !(q.auto && q.raw) {
		r.Server = parseURL(q.server)
	}
	if q.params != nil {
		r.Params = url.Values{}
		for k, v := range q.params {
			r.Params[k] = append([]string(nil), v...)
		}
	}
	return r
}

// begin starts an operation of the process.
func (p *Proc) begin(key, kind string) *Op {
	s := p.s
	op := &Op{key: key, kind: kind, st: s.tape.S(key), proc: p, task: p.task, fsFaults: true, ttl: p.ttl}
	p.task.op = op
	p.task.st = op.st
	s.ops = append(s.ops, op)
	s.opKeys = append(s.opKeys, key)
	return op
}

// run executes f as the operation's call into the code under test.
func (op *Op) run(f func()) {
	p, t, s := op.proc, op.task, op.proc.s
	s.yield(t, "op", 0)
	if t.dead || s.ended {
		op.finish(s)
		runtime.Goexit()
	}
	cfg := &s.prof.cfg
	if s.faultsOn && !op.final {
		if cfg.kill > 0 && op.st.P(cfg.kill) {
			d := delays[op.st.N(6)] + time.Duration(1+op.st.N(900))*time.Microsecond
			s.at(s.now().Add(d), func() {
				if s.faultsOn && p.task == t && t.op == op && !op.done && !t.dead {
					s.ev("kill", "%s killed during %s", t.name, op.desc)
					s.stats.fault("kill")
					p.kill("kill")
				}
			})
		}
		if cfg.netDown > 0 && op.st.P(cfg.netDown) {
			op.netDown = true
		}
	}
	op.startSeq = s.nextSeq()
	op.start = s.now()
	op.bodies0 = len(s.net.bodies)
	op.access0 = len(s.fs.access)
	s.stats.Ops[op.kind]++
	s.ev("start", "%s %s %s", t.name, op.key, op.desc)
	defer func() {
		r := recover()
		op.finish(s)
		op.done = true
		if r != nil && !t.dead && !s.ended {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			s.violate(op.mustReturn(), "panic", "%s %s panics: %v\n%s", op.key, op.desc, r, buf)
			op.killed = true
		}
	}()
	f()
}

// limits draws a deadline or cancellation for the operation and returns its context.
func (op *Op) limits(s *Sim) context.Context {
	cfg := &s.prof.cfg
	ctx := context.Background()
	if op.final || !s.faultsOn {
		return ctx
	}
	if cfg.deadline > 0 && op.st.P(cfg.deadline) {
		d := []time.Duration{2 * time.Second, 30 * time.Second, 500 * time.Millisecond, 10 * time.Second, 60 * time.Second, 15 * time.Second, 5 * time.Millisecond, 20 * time.Minute}[op.st.N(8)]
		d += 500 * time.Nanosecond
		op.setLimit(s.now().Add(d), false)
		var cancel func()
		ctx, cancel = context.WithDeadline(ctx, op.limit)
		op.addCancel(cancel)
	}
	if cfg.cancel > 0 && op.st.P(cfg.cancel) {
		d := []time.Duration{time.Second, 10 * time.Millisecond, 12 * time.Second, 100 * time.Second, 0}[op.st.N(5)] + 300*time.Nanosecond
		at := s.now().Add(d)
		op.setLimit(at, true)
		var cancel func()
		ctx, cancel = context.WithCancel(ctx)
		op.addCancel(cancel)
		s.at(at, func() {
			if !op.done {
				s.ev("cancel", "%s cancelled", op.key)
				s.stats.fault("cancellation")
			}
			cancel()
		})
	}
	return ctx
}

func (op *Op) addCancel(c func()) {
	old := op.cancel
	op.cancel = func() {
		c()
		if old != nil {
			old()
		}
	}
}

func (op *Op) setLimit(at time.Time, cancel bool) {
	if op.limit.IsZero() || at.Before(op.limit) {
		op.limit, op.cancelled = at, cancel
	}
}

// pause sleeps before an operation.
func (p *Proc) pause(st *Stream) {
	cfg := &p.s.prof.cfg
	if cfg.sleepy == 0 || !st.P(cfg.sleepy) {
		return
	}
	t := p.ttl
	jit := time.Duration(1+st.N(50)) * time.Millisecond
	d := []time.Duration{time.Millisecond, time.Second, t / 3, t - 2*time.Second, t + time.Second, 2 * t, t / 2, 100 * time.Second, t}[st.N(9)] + jit
	p.s.ev("sleep", "%s %s", p.task.name, d)
	p.sleep(p.task, d)
}

// disturbFiles lets something else damage or remove cached files.
func (p *Proc) disturbFiles(st *Stream) {
	s := p.s
	cfg := &s.prof.cfg
	if !s.faultsOn || p.dir == nil {
		return
	}
	if cfg.remove > 0 && st.P(cfg.remove) {
		if l := s.fs.list(p.dir.path); len(l) > 0 {
			f := l[st.N(len(l))]
			s.ev("remove", "%s", s.fs.rel(f))
			s.stats.fault("cache-file-removed")
			s.fs.outside(f, nil, true)
		}
	}
	if cfg.corrupt > 0 && st.P(cfg.corrupt) {
		if l := s.fs.list(p.dir.path); len(l) > 0 {
			f := l[st.N(len(l))]
			bad := []string{"", "garbage", `{"services":[[["com"],["http://e`, "{}", "\x00\x00\x00\x00", `{"services":null}`, `[]`, `{"version":"1.0"}`}[st.N(8)]
			s.ev("corrupt", "%s := %q", s.fs.rel(f), bad)
			s.stats.fault("cache-file-corrupted")
			s.fs.outside(f, []byte(bad), false)
		}
	}
}

func runLibOp(p *Proc, i int) {
	s := p.s
	key := fmt.Sprintf("%s.o%d", p.name, i)
	if s.tape.Dropped(key) {
		return
	}
	st := s.tape.S(key)
	p.task.st = st
	p.pause(st)
	p.disturbFiles(st)
	cfg := &s.prof.cfg
	c := p.clis[st.N(len(p.clis))]
	if c.bs == nil {
		c.bs = c.rc.Bootstrap // created by the client itself
	}
	if c.bs == nil {
		doQuery(p, c, key, nil, false)
		return
	}
	switch st.W(cfg.wLookup, cfg.wDo, cfg.wQuick, cfg.wDownload, cfg.wAcc) {
	case 0:
		doLookup(p, c, key, genLookup(st, p.regs, s.world), false)
	case 1:
		doQuery(p, c, key, nil, false)
	case 2:
		doQuick(p, c, key, nil, false)
	case 3:
		doDownload(p, c, key, p.regs[st.N(len(p.regs))])
	case 4:
		doAccessor(p, c, key, p.regs[st.N(len(p.regs))])
	}
}

func genLookup(st *Stream, rs []*Reg, w *World) *Query {
	q := genQuery(st, rs, -1, w)
	notLookupable(st, q)
	switch {
	case q.reg.id == "ip4" && st.P(10): // of the other IP version
		q.text = "2001:db8::1"
	case q.reg.id == "ip6" && st.P(10):
		q.text = []string{"10.0.0.1", "x"}[st.N(2)]
	}
	return q
}

// notLookupable sometimes makes the text of a query one which no registry can answer.
func notLookupable(st *Stream, q *Query) {
	l := map[string][]string{"ip4": {"10.0.0", "x", "10.0.0.0/33", "", "1.2.3.4.5"}, "ip6": {"2001:::", "2001:db8::/129", ":"}, "asn": {"4294967296", "ASx", "-1", "", "AS"}}[q.reg.id]
	if l != nil && st.P(40) {
		tails := []string{".5", " ", "-", "x", "/", ",1", "/8/8", "/+8", "e0", "\n", "-1", "%"}
		switch i := st.N(len(l) + len(tails) + 1); {
		case i < len(l):
			q.text = l[i]
		case i < len(l)+len(tails):
			if _, _, ok := matchEntries(q.reg.id, nil, q.text+tails[i-len(l)]); !ok {
				q.text += tails[i-len(l)]
			}
		default:
			q.text = " " + q.text
		}
		q.path = pathFor(q.typ, q.text)
	}
}

// doLookup runs bootstrap.Client.Lookup.
func doLookup(p *Proc, c *Cli, key string, q *Query, final bool) {
	s := p.s
	op := p.begin(key, "lookup")
	op.final = final
	op.store, op.svc, op.twin = c.store, c.svc, c.twin
	op.desc = fmt.Sprintf("Lookup(%s, %q) of %s via %s", q.reg.id, q.text, c.svc.id, c.store.name)
	c.used[q.reg] = true
	ctx := op.limits(s)
	question := &bootstrap.Question{RegistryType: q.reg.typ, Query: q.text}
	if ctx != context.Background() || op.st.N(2) == 1 {
		question = question.WithContext(ctx)
	}
	before := *question
	base := c.baseURL()
	var ans *bootstrap.Answer
	var err error
	op.run(func() { ans, err = c.bs.Lookup(question) })
	if op.killed || s.ended {
		op.drop(s)
		return
	}
	s.ev("end", "%s err=%v answer=%s", op.key, err, ansStr(ans))
	s.stats.check("C11")
	if !reflect.DeepEqual(before, *question) {
		s.violate("C11", "question-modified", "%s modifies the question: %v -> %v", op.desc, before, *question)
	}
	c.checkBase(op, base)
	s.checkLookup(op, q, ans, err)
	s.afterOp(op, c)
	if err == nil && ans != nil {
		p.keepAnswer(op, ans)
	}
	op.release()
}

func (op *Op) release() {
	if op.cancel != nil {
		op.cancel()
	}
}

// drop ends an operation whose process died.
func (op *Op) drop(s *Sim) {
	op.finish(s)
	s.settleDocs(op, false)
	op.release()
	if op.task.dead {
		runtime.Goexit()
	}
}

func ansStr(a *bootstrap.Answer) string {
	if a == nil {
		return "nil"
	}
	var u []string
	for _, x := range a.URLs {
		u = append(u, x.String())
	}
	return fmt.Sprintf("%q -> [%s]", a.Entry, strings.Join(u, " "))
}

type reqSnap struct {
	r      rdap.Request
	server string
	srv    url.URL
	params url.Values
	roles  []string
}

func snap(r *rdap.Request) reqSnap {
	x := reqSnap{r: *r, roles: append([]string(nil), r.FetchRoles...)}
	if r.Server != nil {
		x.server = r.Server.String()
		x.srv = *r.Server
	}
	if r.Params != nil {
		x.params = url.Values{}
		for k, v := range r.Params {
			x.params[k] = append([]string(nil), v...)
		}
	}
	return x
}

func (a reqSnap) same(r *rdap.Request) bool {
	b := snap(r)
	return a.r.Type == b.r.Type && a.r.Query == b.r.Query && a.r.Server == b.r.Server && a.r.Timeout == b.r.Timeout &&
		reflect.DeepEqual(a.roles, r.FetchRoles) && a.server == b.server && reflect.DeepEqual(a.srv, b.srv) && reflect.DeepEqual(a.params, b.params) && a.r.Context() == b.r.Context()
}

// doQuery runs rdap.Client.Do.
func doQuery(p *Proc, c *Cli, key string, q *Query, final bool) {
	s := p.s
	op := p.begin(key, "do")
	op.final = final
	op.store, op.svc = c.store, c.svc
	var req *rdap.Request
	if q == nil {
		if len(p.reqs) > 0 && op.st.P(300) {
			h := p.reqs[op.st.N(len(p.reqs))] // the same request once more
			q, req = h.q, h.req
		} else {
			q = genQuery(op.st, p.regs, s.prof.cfg.named, s.world)
			if q.reg != nil && !q.auto {
				notLookupable(op.st, q)
			}
			if op.st.P(8) {
				q = &Query{bad: "nil"}
			}
		}
	}
	if req == nil {
		req = q.request()
		if q.auto {
			s.stats.check("C22")
			if q.typ != req.Type || !q.raw && req.Query != q.text {
				s.violate("C22", "wrong-type", "%s is taken for %s %q instead of %s %q", q, req.Type, req.Query, q.typ, q.text)
			}
		}
		p.reqs = append(p.reqs, &heldReq{q, req})
	}
	if q.bad == "nil" {
		doNil(p, c, op, q)
		return
	}
	op.tag = q.autoTag()
	op.desc = fmt.Sprintf("Do(%s) of %s via %s", q, c.svc.id, c.store.name)
	if q.reg != nil {
		c.used[q.reg] = true
	}
	ctx := op.limits(s)
	r := req
	if ctx != context.Background() {
		r = req.WithContext(ctx)
	}
	if s.prof.cfg.deadline > 0 && s.faultsOn && !final && op.st.P(s.prof.cfg.deadline/3) {
		r2 := *r
		r = &r2
		r.Timeout = []time.Duration{3 * time.Second, 20 * time.Second, 100 * time.Millisecond, 45 * time.Second}[op.st.N(4)] + 700*time.Nanosecond
	}
	if op.st.P(100) {
		c.rc.UserAgent = "sim-agent"
	}
	op.agent = c.rc.UserAgent
	verbose := op.st.P(150)
	if verbose {
		c.rc.Verbose = func(string) {}
	}
	before := snap(r)
	if c.bs != nil && op.st.P(100) {
		c.bs.Verbose = func(string) {}
	}
	var cb uintptr
	base := c.baseURL()
	if c.bs != nil {
		cb = reflect.ValueOf(c.bs.Verbose).Pointer()
	}
	var resp *rdap.Response
	var err error
	op.run(func() {
		if r.Timeout > 0 {
			op.setLimit(s.now().Add(r.Timeout), false)
		}
		resp, err = c.rc.Do(r)
	})
	if op.killed || s.ended {
		op.drop(s)
		return
	}
	s.ev("end", "%s err=%v", op.key, err)
	s.stats.check("C11")
	if !before.same(r) {
		s.violate("C11", "request-modified", "%s modifies the request: server %s -> %v, params %v -> %v", op.desc, before.server, r.Server, before.params, r.Params)
	}
	if c.bs != nil && reflect.ValueOf(c.bs.Verbose).Pointer() != cb {
		s.violate("C11", "callback-replaced", "%s %s leaves another verbose callback in the bootstrap client", op.key, op.desc)
	}
	c.checkBase(op, base)
	s.checkQuery(op, q, &Outcome{err: err, resp: resp})
	s.afterOp(op, c)
	p.keepRequest(op, r, before)
	if resp != nil && len(resp.HTTP) > 0 {
		p.keepResponse(op, resp)
	}
	op.release()
}

// doNil runs Do without a request.
func doNil(p *Proc, c *Cli, op *Op, q *Query) {
	op.desc = "Do(nil)"
	out := &Outcome{}
	op.run(func() { out.resp, out.err = c.rc.Do(nil) })
	if op.killed || p.s.ended {
		op.drop(p.s)
		return
	}
	p.s.ev("end", "%s err=%v", op.key, out.err)
	p.s.checkQuery(op, q, out)
	p.s.afterOp(op, c)
	op.release()
}

// doQuick runs QueryDomain, QueryIP or QueryAutnum.
func doQuick(p *Proc, c *Cli, key string, q *Query, final bool) {
	s := p.s
	op := p.begin(key, "quick")
	op.final = final
	op.store, op.svc = c.store, c.svc
	var rs []*Reg
	for _, r := range p.regs {
		if r.id != "tag" {
			rs = append(rs, r)
		}
	}
	if len(rs) == 0 {
		rs = regs[:1]
	}
	q = genQuery(op.st, rs, -1, s.world)
	notLookupable(op.st, q)
	q.params = nil
	op.desc = fmt.Sprintf("Query(%s) of %s via %s", q, c.svc.id, c.store.name)
	c.used[q.reg] = true
	out := &Outcome{quick: true}
	op.run(func() {
		op.setLimit(s.now().Add(30*time.Second), false)
		switch q.reg.id {
		case "dns":
			d, err := c.rc.QueryDomain(q.text)
			out.err = err
			if d != nil {
				out.obj = d
			}
		case "asn":
			d, err := c.rc.QueryAutnum(q.text)
			out.err = err
			if d != nil {
				out.obj = d
			}
		default:
			d, err := c.rc.QueryIP(q.text)
			out.err = err
			if d != nil {
				out.obj = d
			}
		}
	})
	if op.killed || s.ended {
		op.drop(s)
		return
	}
	s.ev("end", "%s err=%v obj=%T", op.key, out.err, out.obj)
	s.checkQuery(op, q, out)
	s.afterOp(op, c)
	op.release()
}

// doDownload runs bootstrap.Client.Download.
func doDownload(p *Proc, c *Cli, key string, r *Reg) {
	s := p.s
	op := p.begin(key, "download")
	op.store, op.svc = c.store, c.svc
	op.desc = fmt.Sprintf("Download(%s) of %s via %s", r.id, c.svc.id, c.store.name)
	c.used[r] = true
	ctx := op.limits(s)
	base := c.baseURL()
	var err error
	op.run(func() {
		if ctx == context.Background() {
			err = c.bs.Download(r.typ)
		} else {
			err = c.bs.DownloadWithContext(ctx, r.typ)
		}
	})
	if op.killed || s.ended {
		op.drop(s)
		return
	}
	s.ev("end", "%s err=%v", op.key, err)
	c.checkBase(op, base)
	s.checkDownload(op, r, err)
	s.afterOp(op, c)
	op.release()
}

// baseURL is the bootstrap service set in the client, if any.
func (c *Cli) baseURL() string {
	if c.bs == nil || c.bs.BaseURL == nil {
		return ""
	}
	return c.bs.BaseURL.String()
}

func (c *Cli) checkBase(op *Op, was string) {
	if now := c.baseURL(); was != "" && now != was {
		op.proc.s.violate("C11 C09", "base-modified", "%s %s changes the bootstrap client's BaseURL from %s to %s", op.key, op.desc, was, now)
	}
}

// accessor calls the registry accessor.
func (c *Cli) accessor(r *Reg) *bootstrap.File {
	switch r.id {
	case "dns":
		if x := c.bs.DNS(); x != nil {
			return x.File()
		}
	case "ip4":
		if x := c.bs.IPv4(); x != nil {
			return x.File()
		}
	case "ip6":
		if x := c.bs.IPv6(); x != nil {
			return x.File()
		}
	case "asn":
		if x := c.bs.ASN(); x != nil {
			return x.File()
		}
	case "tag":
		if x := c.bs.ServiceProvider(); x != nil {
			return x.File()
		}
	}
	return nil
}

func doAccessor(p *Proc, c *Cli, key string, r *Reg) {
	s := p.s
	op := p.begin(key, "accessor")
	op.store, op.svc = c.store, c.svc
	op.desc = fmt.Sprintf("accessor(%s) of %s via %s", r.id, c.svc.id, c.store.name)
	var f *bootstrap.File
	op.run(func() { f = c.accessor(r) })
	if op.killed || s.ended {
		op.drop(s)
		return
	}
	s.ev("end", "%s file=%v", op.key, f != nil)
	s.checkAccessor(op, c, r, f)
	s.afterOp(op, c)
	op.release()
}

// recoverLib runs after the faults have stopped: everything must work.
func recoverLib(p *Proc) {
	s := p.s
	for ci, c := range p.clis {
		if c.bs == nil {
			c.bs = c.rc.Bootstrap
		}
		for _, r := range regs {
			if !c.used[r] || c.bs == nil {
				continue
			}
			key := fmt.Sprintf("%s.f%d.%s", p.name, ci, r.id)
			st := s.tape.S(key)
			if st.P(150) {
				p.sleep(p.task, p.ttl+time.Second)
			}
			l := s.world.pool.qs[r.id]
			q := &Query{reg: r, text: l[st.N(len(l))]}
			doLookup(p, c, key, q, true)
			if s.ended {
				return
			}
		}
	}
	if len(p.clis) > 0 && p.s.prof.cfg.wDo > 0 {
		key := p.name + ".fq"
		doQuery(p, p.clis[0], key, genQuery(s.tape.S(key), p.regs, 0, s.world), true)
	}
	// A new client which takes over the cache object of another.
	for ci, c := range p.clis {
		key := fmt.Sprintf("%s.t%d", p.name, ci)
		st := s.tape.S(key)
		if s.ended || c.bs == nil || c.bs.Cache == nil || !st.P(200) {
			continue
		}
		r := p.regs[st.N(len(p.regs))]
		l := s.world.pool.qs[r.id]
		t := &Cli{svc: c.svc, store: c.store, ttl: c.ttl, mem: c.mem, used: map[*Reg]bool{}, held: map[*Reg]*Doc{}, twin: true}
		t.bs = &bootstrap.Client{Cache: c.bs.Cache, BaseURL: c.bs.BaseURL, HTTP: c.bs.HTTP}
		doLookup(p, t, key, &Query{reg: r, text: l[st.N(len(l))]}, true)
	}
}

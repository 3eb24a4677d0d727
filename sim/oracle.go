package main

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"simrt"
	"strings"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
)

// Outcome of a query.
type Outcome struct {
	err   error
	resp  *rdap.Response
	obj   rdap.RDAPObject
	quick bool
}

// ------------------------------------------------------------ documents

func (d *Doc) got() bool { return d.reply != nil && d.reply.delivered && d.reply.complete }

// savedBy is the latest moment at which d can have been saved; zero if not yet known.
func (d *Doc) saved() time.Time {
	if !d.savedBy.IsZero() || d.op == nil {
		return d.savedBy
	}
	for _, c := range d.op.contacts {
		if !isServiceHost(c.addr) && !c.at.Before(d.reply.doneAt) {
			return c.at
		}
	}
	if d.op.ended {
		return d.op.end
	}
	return time.Time{}
}

// settleDocs fixes what is known about the documents an operation obtained.
func (s *Sim) settleDocs(op *Op, ok bool) {
	for _, d := range s.world.docs {
		if d.op == op {
			if d.got() {
				d.savedBy = d.saved()
			}
			d.endSeq = op.endSeq
			d.sure = ok && d.got() && !op.killed
			d.unsaved = !ok && !op.killed && d.got() && !d.seen && d.store != nil && d.store.dir != nil && !d.store.dir.everCorrupt
		}
	}
}

func (d *Doc) ended() uint64 {
	if d.endSeq == 0 && d.op != nil && d.op.ended {
		return d.op.endSeq
	}
	return d.endSeq
}

// firstLike returns the earliest document which cannot be told from d.
func (s *Sim) firstLike(d *Doc) *Doc {
	for _, x := range s.world.docs {
		if x.svc == d.svc && x.reg == d.reg && x.store == d.store && x.startSeq < d.startSeq && x.got() && bytes.Equal(x.bytes, d.bytes) {
			d = x
		}
	}
	return d
}

func (s *Sim) cands(op *Op, svc *Service, reg *Reg) []*Doc {
	var l []*Doc
	for _, d := range s.world.docs {
		if d.svc == svc && d.reg == reg && d.store == op.store && d.got() && !d.unsaved {
			l = append(l, d)
		}
	}
	return l
}

// sureSave finds the saves which certainly happened before seq.
func (s *Sim) sureSaves(op *Op, svc *Service, reg *Reg) []*Doc {
	var l []*Doc
	for _, d := range s.cands(op, svc, reg) {
		if d.sure && d.ended() != 0 && d.ended() < op.startSeq {
			l = append(l, d)
		}
	}
	return l
}

// superseded: a save certainly later than d's was complete before op began.
func (s *Sim) superseded(op *Op, d *Doc, sures []*Doc) *Doc {
	for _, x := range sures {
		if x != d && d.ended() != 0 && x.startSeq > d.ended() {
			return x
		}
	}
	return nil
}

func (st *Store) disturbedSince(seq uint64) bool { return st.dir != nil && st.dir.disturbed >= seq }

// atHand finds a document which is certainly available and fresh during the
// whole operation.
func (s *Sim) atHand(op *Op, svc *Service, reg *Reg) *Doc {
	all := s.cands(op, svc, reg)
	for _, x := range s.sureSaves(op, svc, reg) {
		if op.store.disturbedSince(x.startSeq) {
			continue
		}
		ok := true
		for _, d := range all {
			if d != x && d.ended() != 0 && d.ended() < x.startSeq {
				continue // overwritten by x
			}
			if !op.end.Before(d.reply.doneAt.Add(op.ttl)) {
				ok = false
			}
		}
		if ok {
			return x
		}
	}
	return nil
}

func sameURLs(a []string, urls []string) bool {
	if len(a) != len(urls) {
		return false
	}
	for i := range a {
		if a[i] != parseURL(urls[i]).String() {
			return false
		}
	}
	return true
}

// checkAnswer checks that an answer (the servers for q) comes from a document
// which may be used.
func (s *Sim) checkAnswer(op *Op, q *Query, urls []string) *Doc {
	s.stats.check("C04 C08 C09 C10")
	all := s.cands(op, op.svc, q.reg)
	var c []*Doc
	for _, d := range all {
		if _, u, ok := d.match(q.text); ok && sameURLs(urls, u) {
			c = append(c, d)
		}
	}
	if len(c) == 0 {
		props, why := "C10 C01", "no document of the service lists exactly these servers for it"
		if len(urls) > 0 {
			if d, _, _ := s.world.docOfHost(parseURL(urls[0]).Host); d != nil {
				_, want, _ := matchEntries(d.reg.id, d.entries, q.text)
				switch {
				case d.svc != op.svc || d.reg != q.reg:
					props, why = "C09 C10", fmt.Sprintf("they are of the %s document of service %s", d.reg.id, d.svc.id)
				case d.unsaved:
					props, why = "C06", "they are of a document which could not be saved, and whose download was reported as failed"
				case !d.got():
					props, why = "C06 C07 C19", "they are of a document which was never completely received"
				case d.store != op.store:
					props, why = "C05 C09", "they are of a document of another cache"
				default:
					why = fmt.Sprintf("document d%d lists %v for it", d.serial, want)
				}
			}
		} else if len(all) == 0 {
			props, why = "C06 C07 C19 C10", "no complete document was ever received"
		} else {
			why = "every document received lists servers for it"
			for _, d := range s.world.docs {
				if d.svc == op.svc && d.reg == q.reg && d.store == op.store && !d.got() {
					props = "C10 C06 C19"
				}
			}
			if op.store.dir != nil && op.store.dir.everCorrupt {
				props += " C07"
			}
		}
		s.violate(props, "wrong-answer", "%s %s is answered with %v, but %s", op.key, op.desc, urls, why)
		return nil
	}
	keep := func(f func(*Doc) bool) bool {
		var n []*Doc
		for _, d := range c {
			if f(d) {
				n = append(n, d)
			}
		}
		if len(n) > 0 {
			c = n
			return true
		}
		return false
	}
	old := c[len(c)-1]
	if !keep(func(d *Doc) bool {
		sv := d.saved()
		return d.op == op || sv.IsZero() || !sv.Before(op.start.Add(-op.ttl))
	}) {
		s.violate("C04", "stale", "%s %s is answered from document d%d, obtained %s before the call; the cache timeout is %s", op.key, op.desc, old.serial, op.start.Sub(old.saved()), op.ttl)
		return old
	}
	if op.store.dir != nil {
		rm := op.store.dir.removed[op.svc.fileTag+q.reg.file]
		for _, x := range all {
			if x.startSeq < rm && (x.ended() == 0 || x.ended() > rm) {
				rm = 0 // a save during which the file was removed may have restored it
			}
		}
		if rm != 0 && rm < op.startSeq && !keep(func(d *Doc) bool { return d.op == op || d.ended() == 0 || d.ended() > rm }) {
			s.violate("C04", "removed", "%s %s is answered from document d%d, which had been removed from the cache", op.key, op.desc, old.serial)
			return old
		}
	}
	if !keep(func(d *Doc) bool { return s.superseded(op, d, s.sureSaves(op, op.svc, q.reg)) == nil }) {
		x := s.superseded(op, old, s.sureSaves(op, op.svc, q.reg))
		s.violate("C08 C04", "superseded", "%s %s is answered from document d%d, though d%d had been saved later", op.key, op.desc, old.serial, x.serial)
		return old
	}
	for _, d := range all {
		if d.op == op && !keep(func(d *Doc) bool { return d.op == op || d.ended() == 0 || d.ended() > op.startSeq }) {
			s.violate("C08 C06", "download-ignored", "%s %s is answered from document d%d, though it downloaded d%d", op.key, op.desc, old.serial, d.serial)
		}
	}
	return c[len(c)-1]
}

// bsInfo describes the bootstrap traffic of an operation.
type bsInfo struct {
	attempted bool
	ok        *Doc // complete valid document received
	n         int
}

func (s *Sim) bsOf(op *Op) bsInfo {
	var b bsInfo
	redirected, leftover := false, false
	failed := 0
	for _, c := range op.contacts {
		if !isServiceHost(c.addr) {
			continue
		}
		b.attempted = true
		redirected = redirected || hostOf(c.addr) == "bsredir.test"
		if c.req == nil {
			if c.failed {
				failed++
			}
			continue
		}
		leftover = leftover || c.req.leftover
		redirected = redirected || c.req.reply != nil && c.req.reply.redirect != ""
		if c.req.redirect || strings.Contains(c.req.url, "/_loop/") {
			redirected = true
		} else {
			b.n++
		}
		if r := c.req.reply; r != nil && r.doc != nil && r.doc.got() {
			b.ok = r.doc
		}
	}
	if !redirected && !leftover {
		b.n += failed
	}
	return b
}

// checkTraffic checks the bootstrap requests of an operation. reg is nil if
// none may be made.
func (s *Sim) checkTraffic(op *Op, reg *Reg, mayReuse bool) bsInfo {
	b := s.bsOf(op)
	s.stats.check("C05")
	if reg == nil {
		if b.attempted {
			s.violate("C05"+op.tag, "needless-bootstrap", "%s %s contacts the bootstrap service", op.key, op.desc)
		}
		return b
	}
	for _, c := range op.contacts {
		if !isServiceHost(c.addr) {
			continue
		}
		if c.addr != op.svc.host && hostOf(c.addr) != "bsredir.test" {
			s.violate("C09", "other-service", "%s %s contacts bootstrap service %s", op.key, op.desc, c.addr)
		}
		if c.req != nil && !c.req.redirect && !strings.Contains(c.req.url, "/_loop/") {
			u := parseURL(c.req.url)
			if u.Path != op.svc.prefix+reg.file {
				s.violate("C09 C05 C10"+op.tag, "other-document", "%s %s requests %s", op.key, op.desc, c.req.url)
			}
			if got := c.req.header.Get("Authorization"); got != op.svc.auth {
				s.violate("C09 C10 C11", "other-service", "%s %s requests %s with the credentials %q instead of %q", op.key, op.desc, c.req.url, got, op.svc.auth)
			}
		}
	}
	if b.n > 1 {
		s.violate("C05", "several-downloads", "%s %s makes %d bootstrap requests", op.key, op.desc, b.n)
	}
	if mayReuse && b.attempted && !op.sawFSFault && !op.twin {
		if d := s.atHand(op, op.svc, reg); d != nil {
			props := "C05"
			if op.store.dir != nil && d.op.proc != op.proc {
				props = "C05 C08"
			}
			for _, o := range s.ops {
				if o.store == op.store && o.svc == op.svc && o.ended && o.endSeq > d.startSeq && o.endSeq < op.startSeq {
					if x := s.bsOf(o); x.attempted && x.ok == nil {
						props += " C06" // a failed refresh lost the document
						break
					}
				}
			}
			s.violate(props, "needless-download", "%s %s downloads, though document d%d obtained %s earlier is at hand (timeout %s)", op.key, op.desc, d.serial, op.start.Sub(d.reply.doneAt), op.ttl)
		}
	}
	return b
}

// checkLimits checks deadline and cancellation.
func (s *Sim) checkLimits(op *Op) {
	if op.limit.IsZero() {
		return
	}
	s.stats.check("C03")
	what := "deadline"
	if op.cancelled {
		what = "cancellation"
	}
	if op.end.After(op.limit.Add(op.fsDelay + slack)) {
		s.violate("C03", "late", "%s %s returns %s after its %s", op.key, op.desc, op.end.Sub(op.limit), what)
	}
	for _, c := range op.contacts {
		if c.at.After(op.limit.Add(op.fsDelay)) {
			s.violate("C03", "late-contact", "%s %s contacts %s %s after its %s", op.key, op.desc, c.addr, c.at.Sub(op.limit), what)
		}
	}
}

// afterOp holds the checks common to all operations.
func (s *Sim) afterOp(op *Op, c *Cli) {
	s.stats.check("C12")
	for _, b := range s.net.bodies[op.bodies0:] {
		if b.op == op && !b.closed {
			s.violate("C12", "unclosed-body", "%s %s leaves the response body of %s open", op.key, op.desc, b.url)
		}
	}
	for _, c := range op.contacts {
		if c.req != nil && c.req.reply != nil {
			s.stats.check("C19")
		}
	}
	if l := s.fs.openBy(op); len(l) > 0 {
		s.violate("C12", "open-file", "%s %s leaves %v open", op.key, op.desc, l)
	}
	s.checkTLS(op)
	s.checkRedirects(op)
	s.checkRequests(op)
	s.checkKept(op)
	if c != nil && c.mem != nil {
		for _, v := range services {
			for _, r := range regs {
				data, err := c.mem.Load(v.fileTag + r.file)
				if err != nil {
					continue
				}
				if s.world.known(v, r, data) == nil {
					s.violate("C06 C19", "cache-content", "after %s %s the memory cache holds %d bytes for %s of %s which are no complete document of it (%q)", op.key, op.desc, len(data), r.id, v.id, clipStr(string(data), 60))
				}
			}
		}
	}
}

func (s *Sim) checkLookup(op *Op, q *Query, ans *bootstrap.Answer, err error) {
	b := s.checkTraffic(op, q.reg, true)
	s.checkLimits(op)
	s.settleDocs(op, err == nil)
	s.stats.check("C06")
	_, _, can := matchEntries(q.reg.id, nil, q.text)
	for _, c := range op.contacts {
		if !isServiceHost(c.addr) {
			s.violate("C05", "lookup-contacts-server", "%s %s contacts RDAP server %s", op.key, op.desc, c.addr)
		}
	}
	if err == nil {
		if !can {
			s.violate("C10"+q.autoTag(), "impossible-answer", "%s %s succeeds, though the query cannot be looked up", op.key, op.desc)
			return
		}
		if ans == nil {
			s.violate("C02 C06", "nil-answer", "%s %s returns neither answer nor error", op.key, op.desc)
			return
		}
		s.mustReport(op, b, "")
		var urls []string
		for _, u := range ans.URLs {
			urls = append(urls, u.String())
		}
		d := s.checkAnswer(op, q, urls)
		if d == nil {
			return
		}
		if want, _, _ := d.match(q.text); ans.Entry != want {
			s.violate("C10"+q.autoTag(), "wrong-entry", "%s %s: the entry reported is %q, the one which matches is %q", op.key, op.desc, ans.Entry, want)
		}
		if len(urls) > 0 {
			for _, c := range op.proc.clis {
				if c.svc == op.svc {
					c.held[q.reg] = s.firstLike(d)
				}
			}
		}
		return
	}
	if can {
		s.explain(op, b, err)
	}
}

// mustReport: failures which must not be hidden.
func (s *Sim) mustReport(op *Op, b bsInfo, tag string) {
	if b.attempted && b.ok == nil {
		s.violate("C06 C19"+tag, "failure-hidden", "%s %s reports success, though its bootstrap download failed", op.key, op.desc)
	}
	if b.ok != nil && op.sawWriteFault {
		s.violate("C06 C18", "save-failure-hidden", "%s %s reports success, though the document could not be saved", op.key, op.desc)
	}
}

// explain checks that an error has a cause.
func (s *Sim) explain(op *Op, b bsInfo, err error) {
	for _, p := range op.unlinked {
		var gone bool
		raw(func() { _, e := os.Lstat(p); gone = os.IsNotExist(e) })
		if d := s.fs.dirOf(p); gone && (d == nil || d.removed[filepath.Base(p)] < op.startSeq) {
			s.violate("C06", "copy-lost", "%s %s fails (%v) and removes the cached copy %s", op.key, op.desc, err, s.fs.rel(p))
		}
	}
	switch {
	case op.sawFSFault:
		return
	case b.ok != nil && op.store.dir != nil && op.store.dir.removed[op.svc.fileTag+b.ok.reg.file] >= op.startSeq:
		return // removed while it was being saved
	case b.attempted && b.ok == nil:
		s.checkAbandoned(op)
		return // the download failed
	case b.ok != nil && !op.limit.IsZero() && b.ok.reply.doneAt.Before(op.limit):
		if !op.expired() {
			s.violate("C06 C03 C19", "unexplained", "%s %s fails (%v), though it received document d%d in time", op.key, op.desc, err, b.ok.serial)
		}
	case op.expired():
		return
	default:
		props := "C06 C07"
		if b.ok != nil {
			props = "C06 C19"
		}
		if !op.limit.IsZero() {
			props += " C03" // its time was not up
		}
		s.violate(props, "unexplained", "%s %s fails without cause: %v", op.key, op.desc, err)
	}
}

func (s *Sim) checkDownload(op *Op, r *Reg, err error) {
	b := s.checkTraffic(op, r, false)
	s.checkLimits(op)
	s.settleDocs(op, err == nil)
	s.stats.check("C06")
	if err == nil {
		if !b.attempted {
			s.violate("C06", "no-download", "%s %s reports success without a request", op.key, op.desc)
		}
		s.mustReport(op, b, "")
		return
	}
	s.explain(op, b, err)
}

func (s *Sim) checkAccessor(op *Op, c *Cli, r *Reg, f *bootstrap.File) {
	s.checkTraffic(op, nil, false)
	s.stats.check("C08 C11")
	hand := s.atHand(op, op.svc, r)
	if f == nil {
		if d := c.held[r]; d != nil {
			s.violate("C06", "registry-lost", "%s %s returns nil, though this client used document d%d before", op.key, op.desc, d.serial)
		}
		if hand != nil && !op.sawFSFault {
			s.violate("C08", "accessor-nil", "%s %s returns nil, though document d%d is in the cache", op.key, op.desc, hand.serial)
		}
		return
	}
	var d *Doc
	for _, x := range s.cands(op, op.svc, r) {
		if !sameDoc(x.bytes, f.JSON) {
			continue
		}
		// Of several equal ones, the one which may have been saved last.
		if d == nil || d.ended() != 0 && (x.ended() == 0 || x.ended() > d.ended()) {
			d = x
		}
	}
	if d == nil {
		props := "C06 C07 C19"
		for _, x := range s.world.docs {
			if x.got() && sameDoc(x.bytes, f.JSON) {
				props = "C09"
				if x.svc == op.svc && x.reg == r && x.unsaved {
					props = "C06"
				}
			}
		}
		s.violate(props, "accessor-content", "%s %s returns a registry which is no complete document of this service (%q)", op.key, op.desc, clipStr(string(f.JSON), 60))
		return
	}
	n := 0
	for _, e := range d.entries {
		var urls []string
		for _, u := range f.Entries[e.key] {
			urls = append(urls, u.String())
		}
		if !sameURLs(urls, e.urls) {
			s.violate("C11 C10", "registry-changed", "%s %s: entry %q of document d%d lists %v, published were %v", op.key, op.desc, e.key, d.serial, urls, e.urls)
		}
		n++
	}
	if len(f.Entries) != n {
		s.violate("C11 C10", "registry-changed", "%s %s: document d%d has %d entries, published were %d", op.key, op.desc, d.serial, len(f.Entries), n)
	}
	if head := [3]string{f.Description, f.Publication, f.Version}; head != d.head {
		s.violate("C11 C10", "registry-changed", "%s %s: document d%d has description, publication and version %q, published were %q", op.key, op.desc, d.serial, head, d.head)
	}
	if h := c.held[r]; h != nil && h != d && d.ended() != 0 && h.startSeq > d.ended() {
		s.violate("C08 C06", "registry-regressed", "%s %s returns document d%d after this client had used the newer d%d", op.key, op.desc, d.serial, h.serial)
	}
	if hand != nil && !op.sawFSFault && hand != d && d.ended() != 0 && hand.startSeq > d.ended() {
		s.violate("C08", "superseded", "%s %s returns document d%d, though d%d had been saved later and is fresh", op.key, op.desc, d.serial, hand.serial)
	}
	c.held[r] = s.firstLike(d)
	op.proc.keepFile(op, f)
}

// ------------------------------------------------------------ queries

type attempt struct {
	addr string
	cts  []*Contact
	reqs []*ReqLog
	kind string // ok, 404, fail, pending
	last *Reply
}

// attempts groups the contacts with RDAP servers.
func (s *Sim) attempts(op *Op) []*attempt {
	var l []*attempt
	for _, c := range op.contacts {
		if isServiceHost(c.addr) {
			continue
		}
		var a *attempt
		if len(l) > 0 && (l[len(l)-1].addr == c.addr || hostOf(c.addr) == "redir.test") {
			a = l[len(l)-1]
		} else {
			a = &attempt{addr: c.addr}
			l = append(l, a)
		}
		a.cts = append(a.cts, c)
		if c.req != nil {
			a.reqs = append(a.reqs, c.req)
		}
	}
	for _, a := range l {
		a.kind = "fail"
		if len(a.reqs) == 0 {
			continue
		}
		r := a.reqs[len(a.reqs)-1].reply
		if r == nil {
			a.kind = "pending"
			continue
		}
		a.last = r
		switch {
		case r.usable && r.complete && r.delivered:
			a.kind = "ok"
		case r.notFound && r.complete && r.delivered:
			a.kind = "404"
		case r.complete && !r.delivered:
			a.kind = "pending"
		}
	}
	return l
}

func addrOf(rawurl string) string {
	u := parseURL(rawurl)
	if u.Port() != "" {
		return u.Host
	}
	if u.Scheme == "https" {
		return u.Host + ":443"
	}
	return u.Host + ":80"
}

// Verdict is what the reference model says about a query.
type Verdict struct {
	att      []*attempt
	urls     []string // servers expected, if known
	decisive *attempt
	success  bool
	noMatch  bool // only known from the outcome
	bsFailed bool
	b        bsInfo
}

// judge evaluates the traffic of a query.
func (s *Sim) judge(op *Op, q *Query, noMatch bool, failed bool, err error) *Verdict {
	v := &Verdict{att: s.attempts(op)}
	s.checkLimits(op)
	s.stats.check("C01 C02")
	if q.bad != "" {
		if len(op.contacts) > 0 {
			s.violate("C02 C05", "contact-for-bad-query", "%s %s contacts %s", op.key, op.desc, op.contacts[0].addr)
		}
		return v
	}
	if q.reg == nil {
		v.b = s.checkTraffic(op, nil, false)
		v.urls = []string{q.server}
	} else {
		v.b = s.checkTraffic(op, q.reg, true)
		s.settleDocs(op, len(v.att) > 0 || noMatch)
		if len(v.att) == 0 {
			_, _, can := matchEntries(q.reg.id, nil, q.text)
			switch {
			case noMatch:
				s.mustReport(op, v.b, " C02")
				s.checkAnswer(op, q, nil)
			case !failed:
				// reported by the caller
			case can:
				s.explain(op, v.b, err)
			}
			return v
		}
		s.mustReport(op, v.b, "")
		d, g, _ := s.world.docOfHost(v.att[0].addr)
		if d == nil {
			s.violate("C10 C01"+q.autoTag(), "unlisted-server", "%s %s contacts %s, which no document lists", op.key, op.desc, v.att[0].addr)
			return v
		}
		_ = g
		_, want, _ := matchEntries(d.reg.id, d.entries, q.text)
		var urls []string
		for _, u := range want {
			urls = append(urls, parseURL(u).String())
		}
		if len(want) == 0 {
			urls = []string{"http://" + v.att[0].addr + "/"} // reported by checkAnswer
			if d.reg.id != q.reg.id {
				urls = []string{"http://" + hostOf(v.att[0].addr) + "/"}
			}
		}
		if s.checkAnswer(op, q, urls) == nil {
			return v
		}
		v.urls = want
	}
	for i, a := range v.att {
		if i >= len(v.urls) || addrOf(v.urls[i]) != a.addr {
			seen := false
			for _, u := range v.urls {
				seen = seen || addrOf(u) == a.addr
			}
			p := "C10 C01" + q.autoTag()
			if seen {
				p = "C01 C10"
			}
			s.violate(p, "wrong-server", "%s %s: attempt %d contacts %s; the servers listed are %v", op.key, op.desc, i+1, a.addr, v.urls)
			return v
		}
		n := 0
		for _, r := range a.reqs {
			if r.redirect || strings.Contains(r.url, "/_loop/") {
				continue
			}
			n++
			s.stats.check("C21")
			if want, _, _ := strings.Cut(q.urlAt(v.urls[i]), "#"); !q.sameURL(r.url, want) {
				s.violate("C10 C11 C21"+q.autoTag(), "wrong-url", "%s %s requests %s instead of %s", op.key, op.desc, r.url, want)
			}
			auth := ""
			if u := parseURL(v.urls[i]).User; u != nil {
				pw, _ := u.Password()
				auth = "Basic " + base64.StdEncoding.EncodeToString([]byte(u.Username()+":"+pw))
			}
			if got := r.header.Get("Authorization"); got != auth {
				s.violate("C21", "wrong-authorization", "%s %s requests %s with authorization %q instead of %q", op.key, op.desc, r.url, got, auth)
			}
		}
		if n > 1 {
			s.violate("C01", "repeated", "%s %s requests %d times from %s", op.key, op.desc, n, a.addr)
		}
		if f := len(a.cts) - len(a.reqs); len(a.reqs) == 0 && f > 1 {
			s.violate("C01", "repeated", "%s %s connects %d times to %s", op.key, op.desc, f, a.addr)
		}
		if v.decisive != nil {
			byz := ""
			if l := v.decisive.last; l != nil && l.byz {
				byz = " C20"
			}
			s.violate("C01"+byz, "continued", "%s %s contacts %s after %s gave a decisive answer (%s)", op.key, op.desc, a.addr, v.decisive.addr, v.decisive.kind)
			return v
		}
		if a.kind == "ok" || a.kind == "404" {
			v.decisive = a
		}
	}
	s.checkAbandoned(op)
	s.checkRedirects(op)
	s.checkRequests(op)
	v.success = v.decisive != nil && v.decisive.kind == "ok"
	if v.decisive == nil && !op.expired() && len(v.att) < len(v.urls) && !(op.kind == "cli" && op.sawFSFault && len(v.att) == 0) {
		props := "C01 C02 C10"
		if !op.limit.IsZero() {
			props += " C03" // its time was not up
		}
		s.violate(props, "gave-up", "%s %s tries %d of %d servers: %s", op.key, op.desc, len(v.att), len(v.urls), s.attStr(v))
	}
	return v
}

// checkRequests: requests are plain GETs, RDAP servers are asked for RDAP.
func (s *Sim) checkRequests(op *Op) {
	for _, c := range op.contacts {
		if c.req == nil {
			continue
		}
		if c.req.method != "GET" {
			s.violate("C10", "wrong-request", "%s %s sends a %s request to %s", op.key, op.desc, c.req.method, c.req.url)
		}
		if !isServiceHost(c.addr) && !strings.Contains(c.req.header.Get("Accept"), "application/rdap+json") {
			s.violate("C10", "wrong-request", "%s %s asks %s for %q instead of RDAP", op.key, op.desc, c.req.url, c.req.header.Get("Accept"))
		}
		if want := op.agent; want != "" && !isServiceHost(c.addr) && c.req.header.Get("User-Agent") != want {
			s.violate("C10", "wrong-request", "%s %s sends %s with the user agent %q instead of %q", op.key, op.desc, c.req.url, c.req.header.Get("User-Agent"), want)
		}
	}
}

// sameDoc: a power loss may cut off white space at the end of a document.
func sameDoc(a, b []byte) bool {
	return bytes.Equal(bytes.TrimRight(a, " \t\r\n"), bytes.TrimRight(b, " \t\r\n"))
}

// checkRedirects: a redirect is followed.
func (s *Sim) checkRedirects(op *Op) {
	if op.expired() || len(s.viol) > 0 {
		return
	}
	for i, c := range op.contacts {
		if c.req == nil || c.req.reply == nil || c.req.reply.redirect == "" || strings.HasPrefix(c.req.reply.redirect, "/_loop") || !c.req.reply.delivered {
			continue
		}
		to := c.addr
		if x := parseURL(c.req.reply.redirect); x.Host != "" {
			to = addrOf(x.String())
		}
		followed := i+1 < len(op.contacts) && op.contacts[i+1].addr == to
		for _, n := range op.contacts { // on a connection dialled earlier
			followed = followed || n.addr == to && n.req != nil && n.req.redirect && n.req.seq > c.req.seq
		}
		if !followed {
			props := "C01 C02"
			if isServiceHost(c.addr) {
				props = "C06"
			}
			s.violate(props, "redirect-ignored", "%s %s does not follow the redirect of %s to %s", op.key, op.desc, c.req.url, c.req.reply.redirect)
		}
	}
}

// checkAbandoned: the client must not give up on a server which would have
// answered in time.
func (s *Sim) checkAbandoned(op *Op) {
	if op.expired() {
		return
	}
	inTime := func(t time.Time) bool { return op.limit.IsZero() || t.Before(op.limit) }
	served := map[string]bool{} // a transport which dials may end up using a kept-alive connection
	for _, c := range op.contacts {
		served[c.addr] = served[c.addr] || c.req != nil
	}
	for _, c := range op.contacts {
		if c.req == nil {
			if served[c.addr] {
				continue
			}
			// Go's default transport waits 30 s for a connection and 10 s for TLS.
			if w := c.ready.Sub(c.at); !c.ready.IsZero() && inTime(c.ready) && op.end.Before(c.ready) && (op.kind == "cli" || w < 9*time.Second) {
				s.violate(gaveUp(c), "abandoned", "%s %s gives up on %s after %s, though it would have accepted the connection after %s, in time", op.key, op.desc, c.addr, op.end.Sub(c.at), w)
			}
			continue
		}
		r := c.req.reply
		if r != nil && r.complete && !r.delivered && (r.usable || r.notFound) && inTime(r.due) {
			s.violate(gaveUp(c), "abandoned", "%s %s gives up on %s, though it would have answered %s after the request, in time", op.key, op.desc, c.addr, r.due.Sub(c.req.at))
		}
	}
}

func gaveUp(c *Contact) string {
	if isServiceHost(c.addr) {
		return "C03 C06"
	}
	return "C03 C01"
}

func (s *Sim) attStr(v *Verdict) string {
	var l []string
	for _, a := range v.att {
		x := a.kind
		if a.last != nil {
			x += " (" + a.last.kind + ")"
		}
		l = append(l, a.addr+" "+x)
	}
	return strings.Join(l, ", ")
}

func ctype(err error) rdap.ClientErrorType {
	var ce *rdap.ClientError
	if errors.As(err, &ce) {
		return ce.Type
	}
	return 0
}

func decodeBody(b []byte) rdap.RDAPObject {
	o, err := rdap.NewDecoder(b).Decode()
	if err != nil {
		return nil
	}
	return o
}

// idOf extracts the mark which identifies the reply an object came from.
func idOf(o rdap.RDAPObject) string {
	switch v := o.(type) {
	case *rdap.Domain:
		return v.Handle
	case *rdap.Autnum:
		return v.Handle
	case *rdap.IPNetwork:
		return v.Handle
	case *rdap.Entity:
		return v.Handle
	case *rdap.Nameserver:
		return v.Handle
	case *rdap.Error:
		return v.Title
	case *rdap.Help:
		if len(v.Notices) > 0 {
			return v.Notices[len(v.Notices)-1].Title
		}
	case *rdap.DomainSearchResults:
		if len(v.Domains) > 0 {
			return v.Domains[0].Handle
		}
	case *rdap.NameserverSearchResults:
		if len(v.Nameservers) > 0 {
			return v.Nameservers[0].Handle
		}
	case *rdap.EntitySearchResults:
		if len(v.Entities) > 0 {
			return v.Entities[0].Handle
		}
	}
	return ""
}

func typeName(o rdap.RDAPObject) string {
	switch o.(type) {
	case *rdap.Domain:
		return "domain"
	case *rdap.Autnum:
		return "autnum"
	case *rdap.IPNetwork:
		return "ip network"
	case *rdap.Entity:
		return "entity"
	case *rdap.Nameserver:
		return "nameserver"
	case *rdap.Error:
		return "error"
	case *rdap.Help:
		return "help"
	case *rdap.DomainSearchResults:
		return "domain search"
	case *rdap.NameserverSearchResults:
		return "nameserver search"
	case *rdap.EntitySearchResults:
		return "entity search"
	}
	return "?"
}

// checkQuery relates the outcome of a query to what the servers did.
func (s *Sim) checkQuery(op *Op, q *Query, out *Outcome) {
	ct := ctype(out.err)
	v := s.judge(op, q, ct == rdap.BootstrapNoMatch, out.err != nil, out.err)
	if len(s.viol) > 0 {
		return
	}
	ctxProp := ""
	if !op.limit.IsZero() {
		ctxProp = " C03"
	}
	switch q.bad {
	case "nil":
		if ct != rdap.InputError {
			s.violate("C02", "wrong-error", "%s %s returns %v instead of an input error", op.key, op.desc, out.err)
		}
		return
	case "unsupported":
		if ct != rdap.BootstrapNotSupported {
			s.violate("C02", "wrong-error", "%s %s returns %v instead of a 'bootstrap not supported' error", op.key, op.desc, out.err)
		}
		return
	case "input":
		if ct != rdap.InputError {
			s.violate("C02", "wrong-error", "%s %s returns %v instead of an input error", op.key, op.desc, out.err)
		}
		return
	}
	if !out.quick && out.err == nil && out.resp != nil {
		out.obj = out.resp.Object
	}
	if out.err != nil && out.resp != nil && !isNil(out.resp.Object) {
		s.violate("C02", "invented", "%s %s fails (%v), but its response has an object (%s)", op.key, op.desc, out.err, idOf(out.resp.Object))
		return
	}
	if out.err == nil && isNil(out.obj) {
		s.violate("C02", "nothing", "%s %s returns neither object nor error", op.key, op.desc)
		return
	}
	if out.err == nil && !v.success {
		byz := ""
		for _, a := range v.att {
			if a.last != nil && a.last.byz {
				byz = " C20"
			}
		}
		s.violate("C02 C01 C19"+byz, "invented", "%s %s returns an object (%s), though no server gave a usable answer: %s", op.key, op.desc, idOf(out.obj), s.attStr(v))
		return
	}
	if v.success {
		r := v.decisive.last
		want := fmt.Sprintf("RID-%d", r.id)
		if out.quick {
			wantType := map[string]string{"dns": "domain", "asn": "autnum", "ip4": "ip network", "ip6": "ip network"}[q.reg.id]
			switch {
			case r.objType == wantType:
			case r.objType == "error":
				if ct != rdap.RDAPServerError {
					s.violate("C02", "wrong-error", "%s %s returns %v, though the server sent an RDAP error object", op.key, op.desc, out.err)
					return
				}
				d := sanitizeBody(r.body)
				texts := append([]string{d.str("title")}, d.strs("description")...)
				if code, ok := d.known["errorCode"]; ok {
					texts = append(texts, fmt.Sprint(code))
				}
				for _, x := range texts {
					if !strings.Contains(out.err.Error(), x) {
						s.violate("C02", "error-text", "%s %s: the error %q does not mention %q of the server's RDAP error", op.key, op.desc, out.err, x)
					}
				}
				return
			default:
				if ct != rdap.WrongResponseType {
					s.violate("C02", "wrong-error", "%s %s returns %v, though the server sent a %s object", op.key, op.desc, out.err, r.objType)
				}
				return
			}
		}
		if out.err != nil {
			s.violate("C01 C02 C19"+map[bool]string{true: " C20"}[r.byz]+ctxProp, "answer-dropped", "%s %s fails (%v), though %s gave a usable answer (%s, %s)", op.key, op.desc, out.err, v.decisive.addr, r.kind, r.framing)
			return
		}
		if _, title, _ := errShape(r.id); r.objType == "error" && !title {
			want = ""
		}
		if typeName(out.obj) != r.objType || !r.byz && idOf(out.obj) != want {
			byz := map[bool]string{true: " C20"}[r.byz]
			s.violate("C02 C01"+byz, "wrong-object", "%s %s returns a %s object marked %q instead of the %s object %q sent by %s", op.key, op.desc, typeName(out.obj), idOf(out.obj), r.objType, want, v.decisive.addr)
		} else if !reflect.DeepEqual(out.obj, decodeBody(r.body)) {
			s.violate("C02 C19", "wrong-object", "%s %s returns an object which differs from the one sent by %s", op.key, op.desc, v.decisive.addr)
		} else {
			s.checkObject(op, r, out.obj)
		}
	} else {
		if out.resp != nil && !out.quick && out.err == nil {
			s.violate("C02", "invented", "%s %s", op.key, op.desc)
		}
		switch {
		case v.decisive != nil: // 404
			if ct != rdap.ObjectDoesNotExist {
				s.violate("C01 C02"+ctxProp, "wrong-error", "%s %s returns %v, though %s answered 404", op.key, op.desc, out.err, v.decisive.addr)
			}
		case op.expired():
			if ct == rdap.ObjectDoesNotExist {
				s.violate("C02", "wrong-error", "%s %s returns %v, though no server answered 404: %s", op.key, op.desc, out.err, s.attStr(v))
			}
			if ct == rdap.NoWorkingServers && len(v.att) < len(v.urls) {
				s.violate("C01 C02 C03", "wrong-error", "%s %s returns %v after its time was up and %d of %d servers were tried: %s", op.key, op.desc, out.err, len(v.att), len(v.urls), s.attStr(v))
			}
		case len(v.att) == 0 && q.reg != nil:
			if _, _, can := matchEntries(q.reg.id, nil, q.text); ct != 0 && ct != rdap.BootstrapNoMatch && (can || ct != rdap.InputError) {
				s.violate("C02", "wrong-error", "%s %s returns %v, though no server was contacted", op.key, op.desc, out.err)
			}
		default:
			if ct != rdap.NoWorkingServers {
				s.violate("C01 C02", "wrong-error", "%s %s returns %v, though every server failed: %s", op.key, op.desc, out.err, s.attStr(v))
			}
		}
	}
	if !out.quick {
		s.checkRecords(op, q, v, out)
	}
}

// checkObject compares an object with what the server sent.
func (s *Sim) checkObject(op *Op, r *Reply, o any) {
	s.stats.check("C20 C23 C24")
	d := sanitizeBody(r.body)
	if p, diff := compareObject(d, o); diff != "" {
		s.violate(p, "wrong-object", "%s %s returns an object which differs from the one sent: %s", op.key, op.desc, diff)
		return
	}
	if diff := compareCards(d); diff != "" {
		s.violate("C23", "card", "%s %s: %s", op.key, op.desc, diff)
	}
	// The printer shows the object.
	var b bytes.Buffer
	p := rdap.Printer{Writer: &b, BriefLinks: r.id&1 != 0, OmitNotices: r.id%5 == 0, OmitRemarks: r.id%7 == 0, BriefOutput: r.id%6 == 5}
	if r.id&2 != 0 {
		p.IndentChar, p.IndentSize = []rune{'\t', '.', '#'}[r.id%3], uint(1+r.id%4)
	}
	p.Print(o)
	s.checkForged(op, b.Bytes(), string(p.IndentChar))
	opts := textOpts{p.BriefLinks, p.OmitNotices, p.OmitRemarks, p.BriefOutput, false}
	got := gotText(b.Bytes(), string(p.IndentChar))
	diff := diffText(wantText(d, opts), got)
	if diff != "" && opts.brief {
		opts.inner = true
		if diffText(wantText(d, opts), got) == "" {
			diff = ""
		}
	}
	if diff != "" {
		s.violate("C14"+map[bool]string{true: " C24"}[r.byz], "output-lacks", "%s %s: the text of the object differs from it: %s", op.key, op.desc, diff)
	}
}

// checkForged: no text sent by a server makes a line of its own, or breaks one.
func (s *Sim) checkForged(op *Op, out []byte, indent string) {
	s.stats.check("C24")
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(strings.TrimLeft(l, " "+indent), "forged") {
			s.violate("C24", "forged-line", "%s %s prints the line %q, which is part of a value sent by a server", op.key, op.desc, clipStr(l, 80))
		}
		if strings.ContainsAny(l, "\r\x00") {
			s.violate("C24", "control-character", "%s %s prints the control characters of %q", op.key, op.desc, clipStr(l, 80))
		}
	}
}

func isNil(o any) bool {
	if o == nil {
		return true
	}
	v := reflect.ValueOf(o)
	return v.Kind() == reflect.Pointer && v.IsNil()
}

// checkRecords checks the per-server records of a response.
func (s *Sim) checkRecords(op *Op, q *Query, v *Verdict, out *Outcome) {
	// When time is up, an attempt may end before anything reaches the server.
	unsent := 0
	if out.resp != nil && op.expired() && len(out.resp.HTTP) == len(v.att)+1 {
		if h := out.resp.HTTP[len(v.att)]; h.Error != nil && h.Response == nil {
			unsent = 1
		}
	}
	if len(v.att) == 0 {
		if out.resp != nil && len(out.resp.HTTP) > unsent {
			s.violate("C02", "records", "%s %s: the response has %d HTTP records, but no server was contacted", op.key, op.desc, len(out.resp.HTTP))
		}
		return
	}
	if out.resp == nil {
		s.violate("C02", "records", "%s %s: no response, but %d servers were contacted", op.key, op.desc, len(v.att))
		return
	}
	if len(out.resp.HTTP) != len(v.att)+unsent {
		s.violate("C02", "records", "%s %s: %d HTTP records for %d servers contacted", op.key, op.desc, len(out.resp.HTTP), len(v.att))
		return
	}
	if q.reg != nil {
		var urls []string
		if out.resp.BootstrapAnswer != nil {
			for _, u := range out.resp.BootstrapAnswer.URLs {
				urls = append(urls, u.String())
			}
		}
		if !sameURLs(urls, v.urls) {
			s.violate("C02 C10", "records", "%s %s: the response's bootstrap answer is %v, the servers are %v", op.key, op.desc, urls, v.urls)
		}
	}
	for i, a := range v.att {
		h := out.resp.HTTP[i]
		if want := q.urlAt(v.urls[i]); !sameURL(h.URL, want) {
			s.violate("C02 C10 C21"+q.autoTag(), "records", "%s %s: record %d has URL %s instead of %s", op.key, op.desc, i, h.URL, want)
		}
		if a.last == nil {
			if h.Error == nil || h.Response != nil {
				s.violate("C02", "records", "%s %s: record %d (%s) has no error, though the server could not be reached", op.key, op.desc, i, a.addr)
			}
			continue
		}
		r := a.last
		if len(a.cts) > 0 && r.delivered && h.Duration < r.doneAt.Sub(a.cts[0].at) || h.Duration < 0 || h.Duration > op.end.Sub(op.start) {
			s.violate("C02", "records", "%s %s: record %d (%s) has the duration %s, the attempt took at least %s of the query's %s", op.key, op.desc, i, a.addr, h.Duration, r.doneAt.Sub(a.cts[0].at), op.end.Sub(op.start))
		}
		if r.complete && r.delivered && r.redirect == "" {
			if h.Response == nil || h.Response.StatusCode != r.status {
				s.violate("C02", "records", "%s %s: record %d (%s) lacks the HTTP response with status %d (error %v)", op.key, op.desc, i, a.addr, r.status, h.Error)
			} else if !bytes.Equal(h.Body, r.body) {
				s.violate("C02 C19", "records", "%s %s: record %d (%s) has a body of %d bytes, the server sent %d", op.key, op.desc, i, a.addr, len(h.Body), len(r.body))
			}
		}
		bad := r.kind == "undecodable" || r.kind == "corrupted" || r.kind == "reset" || r.redirect != ""
		if a.kind == "pending" {
			bad = true
		}
		if a.kind == "ok" && h.Error != nil || bad && h.Error == nil {
			s.violate("C02", "records", "%s %s: record %d (%s: %s) has error %v", op.key, op.desc, i, a.addr, r.kind, h.Error)
		}
	}
}

// checkLeaks: no connection outlives the commands, or the transports, which made it.
func (s *Sim) checkLeaks() {
	for _, t := range s.transports {
		t.CloseIdleConnections()
	}
	simrt.Wait()
	s.stats.check("C12")
	for _, c := range s.net.conns {
		op := c.dialer
		if c.closed || op == nil || op.killed || c.task.dead || !op.done {
			continue
		}
		s.violate("C12", "open-connection", "the connection to %s made by %s %s is still open at the end, though nothing uses it", c.addr, op.key, op.desc)
	}
}

// finalChecks runs at the end of a run.
func (s *Sim) finalChecks() {
	s.checkLeaks()
	if s.cm != nil {
		s.cm.final()
		return
	}
	for _, d := range s.fs.dirs {
		raw(func() {
			es, _ := os.ReadDir(d.path)
			for _, e := range es {
				s.world.probeFile(d, filepath.Join(d.path, e.Name()), "at the end of the run")
			}
		})
	}
}

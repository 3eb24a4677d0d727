package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"net/netip"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/openrdap/rdap"
)

// outWriter is a standard output which takes a limited number of bytes.
type outWriter struct {
	buf   bytes.Buffer
	limit int // -1: unlimited
	err   error
	hit   bool
	short bool // reports a short write without an error first
}

func (w *outWriter) Write(p []byte) (int, error) {
	if w.limit >= 0 && w.buf.Len()+len(p) > w.limit {
		n := w.limit - w.buf.Len()
		w.buf.Write(p[:n])
		w.hit = true
		return n, w.err
	}
	return w.buf.Write(p)
}

// cliCase is a generated command line and what is expected of it.
type cliCase struct {
	args     []string
	q        *Query
	text     bool
	whois    bool
	json     bool
	raw      bool
	usage    string // non-empty: must fail without network use, and why
	clientCN string
	sandbox  bool
	opts     rdap.CLIOptions
	named    []string // paths named by arguments (sandbox)
	verbose  bool
	timeout  int
	outLimit int
	outErr   error
	store    *Store
	svc      *Service
	ttl      time.Duration
	insecure bool
	argsFile string // arguments in a file
	info     string // asks for help or the version
}

var outErrs = []error{syscall.EPIPE, syscall.ENOSPC, errors.New("stream closed")}

// genCLI makes a command line.
func genCLI(p *Proc, st *Stream, final bool) *cliCase {
	s := p.s
	cfg := &s.prof.cfg
	c := &cliCase{outLimit: -1, timeout: 30, ttl: p.ttl}
	c.svc = p.svcs[0]
	add := func(a ...string) { c.args = append(c.args, a...) }

	// cache
	switch {
	case p.mem:
		add("--cache-dir=")
		c.store = &Store{name: "memory of " + p.task.name}
	case st.P(200):
		c.store = s.world.storeOf(s.defaultDir)
		if st.N(2) == 1 {
			add("--cache-dir=default")
		}
	default:
		add("--cache-dir=" + p.dir.path)
		c.store = s.world.storeOf(p.dir)
	}
	if st.P(60) {
		c.svc = services[5]
		if st.N(2) == 1 {
			add("-e")
		} else {
			add("--exp=test_rdap_net")
		}
	} else if c.svc.base != "" {
		add("--bs-url=" + c.svc.base)
	}
	if !final && st.P(30) {
		c.ttl = []time.Duration{0, 4294967295 * time.Second}[st.N(2)]
	}
	if c.ttl != time.Hour || st.N(2) == 1 {
		add(fmt.Sprintf("--bs-ttl=%d", int(c.ttl/time.Second)))
	}
	if !final && st.P(500) {
		c.timeout = []int{5, 60, 1, 10, 31, 600, 0, 65535}[st.N(8)]
		add(fmt.Sprintf("--timeout=%d", c.timeout))
	}
	if st.P(250) {
		c.verbose = true
		add("-v")
	}
	// output mode
	switch st.W(4, 3, 3, 3, 2, 1) {
	case 0:
		c.text = true
	case 1:
		c.raw = true
		add([]string{"-r", "--raw"}[st.N(2)])
	case 2:
		c.json = true
		add([]string{"-j", "--json"}[st.N(2)])
	case 3:
		c.whois = true
		add([]string{"-w", "--whois"}[st.N(2)])
	case 4:
		c.text = true
		add("--text")
	case 5:
		c.raw, c.json = true, true
		add("--raw", "--json")
		if st.N(2) == 1 {
			c.text = true
			add("--text")
		}
	}
	if !final && st.P(200) {
		c.insecure = true
		add([]string{"-k", "--insecure"}[st.N(2)])
	}
	if st.P(50) {
		add("--fetch=all")
	}
	// sandbox and client certificates
	if !final && cfg.sandbox > 0 && st.P(cfg.sandbox) {
		genSandbox(p, st, c)
	} else if !final && cfg.askCC > 0 && st.P(250) {
		genCert(p, st, c)
	}
	// query
	q := genQuery(st, p.regs, cfg.named, s.world)
	if final {
		q = genQuery(st, p.regs, 0, s.world)
	}
	if q.bad == "input" {
		q.bad, q.server = "", ""
		q.typ, q.reg = rdap.DomainRequest, regs[0]
		q.text = "example.com"
		q.path = "domain/example.com"
	}
	q.params = nil
	if q.auto && (strings.HasPrefix(q.asked, "-") || strings.HasPrefix(q.asked, "@")) { // would be a flag or a file
		q = &Query{auto: true, weird: true, asked: "H" + strings.ReplaceAll(q.asked, ".", "") + "-ARIN", typ: rdap.EntityRequest}
		q.text, q.path, q.reg = q.asked, pathFor(q.typ, q.asked), regOf(q.typ, q.asked)
	} else if !q.auto && (strings.HasPrefix(q.text, "-") || strings.HasPrefix(q.text, "@")) {
		q.setText("H" + q.text)
	}
	if q.typ == rdap.AutnumRequest && q.weird && !q.auto {
		q.setText("200")
	}
	c.q = q
	auto := st.N(2) == 0
	typ := map[rdap.RequestType]string{rdap.DomainRequest: "domain", rdap.NameserverRequest: "nameserver", rdap.HelpRequest: "help", rdap.EntityRequest: "entity",
		rdap.AutnumRequest: "autnum", rdap.IPRequest: "ip", rdap.DomainSearchRequest: "domain-search", rdap.DomainSearchByNameserverRequest: "domain-search-by-nameserver",
		rdap.DomainSearchByNameserverIPRequest: "domain-search-by-nameserver-ip", rdap.NameserverSearchRequest: "nameserver-search",
		rdap.NameserverSearchByNameserverIPRequest: "nameserver-search-by-ip", rdap.EntitySearchRequest: "entity-search", rdap.EntitySearchByHandleRequest: "entity-search-by-handle",
		rdap.AutnumSearchRequest: "autnum-search", rdap.RawRequest: "url"}[q.typ]
	text, typeOf := q.text, q.typ
	if q.auto {
		auto, text, typeOf = true, q.asked, 0
	}
	switch typeOf {
	case 0:
	case rdap.DomainRequest:
		if !strings.Contains(q.text, ".") || q.weird {
			auto = false
		}
		typ = []string{"domain", "dns"}[st.N(2)]
	case rdap.NameserverRequest:
		auto = false
		typ = []string{"nameserver", "ns"}[st.N(2)]
	case rdap.AutnumRequest:
		typ = []string{"autnum", "as", "asn"}[st.N(3)]
		// sent in canonical form
		n := strings.TrimPrefix(strings.ToLower(q.text), "as")
		q.path = "autnum/" + n
	case rdap.IPRequest:
		if strings.Contains(q.text, "/") {
			auto = true
			pf := netip.MustParsePrefix(q.text).Masked()
			q.path = "ip/" + pf.String()
		} else {
			q.path = "ip/" + netip.MustParseAddr(q.text).String()
		}
	case rdap.EntityRequest:
		auto = auto && !q.weird && !strings.Contains(q.text, ".")
	case rdap.RawRequest:
		auto = auto && strings.Trim(parseURL(q.server).Path, "/") != "" // otherwise a domain query
	default:
		auto = false
	}
	if q.server != "" && !q.raw {
		if x := strings.TrimPrefix(q.server, "http://"); x != q.server && !strings.Contains(x, "@") && st.P(150) {
			add([]string{"-s", "--server"}[st.N(2)], x) // http is the default scheme
		} else {
			add("--server=" + q.server)
		}
	}
	if !auto {
		add([]string{"-t", "--type"}[st.N(2)], typ)
	}
	if q.raw && !q.auto {
		add(q.server)
	} else if q.typ != rdap.HelpRequest {
		add(text)
	}
	if q.bad == "unsupported" && c.usage == "" {
		c.usage = "a query type which needs a server"
	}
	// usage errors
	if !final && c.usage == "" && st.P(80) {
		switch st.N(12) {
		case 0:
			add("-t", "no-such-type")
			c.usage = "unknown query type"
		case 1:
			add("--no-such-flag")
			c.usage = "unknown flag"
		case 2:
			c.args = []string{"-t", "autnum", "ASx" + q.text}
			c.usage = "invalid AS number"
		case 3:
			c.args = []string{"-t", "ip", "10.0.0"}
			c.usage = "invalid IP address"
		case 4:
			add("--bs-url=http://[bad")
			c.usage = "invalid bootstrap URL"
		case 5:
			c.args = []string{"-v", "--raw"}
			c.usage = "no query"
		case 6:
			add("--exp=nonsense")
			c.usage = "unknown experiment"
		case 7:
			c.args = []string{"-v", "http://direct.test/domain/x.com", "--server=http://direct.test/"}
			c.usage = "a server given for a URL"
		case 8:
			c.args = []string{"--server=http://[bad", "-t", "help"}
			c.usage = "invalid server URL"
		case 9:
			c.args = []string{"-t", "url", "http://[bad"}
			c.usage = "invalid URL"
		case 10:
			c.args = []string{"-t", []string{"as", "asn", "autnum"}[st.N(3)], []string{"AS4294967296", "4294967296", "-1", "AS99999999999999999999", "AS1.2"}[st.N(5)]}
			if c.args[2] == "-1" {
				c.args = []string{"-t", "as", "--", "-1"}
			}
			c.usage = "an AS number out of range"
		case 11:
			c.args = []string{"-t", "ip", []string{"10.0.0.256", "10.0.0.1/24", "2001:db8:::", "example.com", "::1%eth0"}[st.N(5)]}
			c.usage = "invalid IP address"
		}
	} else if !final && c.usage == "" && st.P(25) {
		f := []string{"-h", "--help", "-V", "--version"}[st.N(4)]
		at := st.N(len(c.args) + 1)
		if at > 0 && (c.args[at-1] == "-t" || c.args[at-1] == "--exp" || c.args[at-1] == "--type" || c.args[at-1] == "-s" || c.args[at-1] == "--server" || c.args[at-1] == "--cache-dir") {
			at = 0
		}
		c.args = append(c.args[:at:at], append([]string{f}, c.args[at:]...)...)
		c.info = f
	}
	if !final && !c.sandbox && st.P(60) {
		genArgsFile(p, st, c)
	}
	if !final && cfg.outFail > 0 && st.P(cfg.outFail) {
		c.outLimit = []int{0, 1, 10, 100, 1000, 5000}[st.N(6)]
		c.outErr = outErrs[st.N(3)]
		s.stats.fault("stdout-failure")
	}
	return c
}

// genArgsFile moves arguments to a file.
func genArgsFile(p *Proc, st *Stream, c *cliCase) {
	from := st.N(len(c.args) + 1)
	for _, a := range c.args[from:] {
		if strings.TrimSpace(a) != a || a == "" || a[0] == '#' || a[0] == '@' || strings.ContainsAny(a, "\r\n\x00") {
			return
		}
	}
	f := filepath.Join(p.s.opts.root, "tmp", "args-"+p.name)
	data := strings.Join(c.args[from:], "\n") + "\n# comment\n\n"
	raw(func() { os.WriteFile(f, []byte(data), 0o600) })
	c.args = append(c.args[:from:from], "@"+f)
	c.argsFile = strings.Join(strings.Fields(data), " ")
}

func b64(x string) []byte {
	b, err := base64.StdEncoding.DecodeString(strings.ReplaceAll(strings.TrimSpace(x), "\n", ""))
	if err != nil {
		panic(err)
	}
	return b
}

// genCert adds client certificate options.
func genCert(p *Proc, st *Stream, c *cliCase) {
	dir := filepath.Join(p.s.opts.root, "tmp")
	w := func(name string, data []byte) string {
		f := filepath.Join(dir, name)
		raw(func() { os.WriteFile(f, data, 0o600) })
		return f
	}
	cert := w("cc.pem", certs.ccPEM)
	key := w("ck.pem", certs.ckPEM)
	p12 := b64(clientP12)
	pf := w("c.p12", p12)
	garbage := w("garbage", []byte("garbage"))
	add := func(a ...string) { c.args = append(c.args, a...) }
	switch st.W(6, 4, 1, 1, 1, 1, 1, 1, 1, 2, 1, 1, 1, 1, 1) {
	case 0:
		add("--cert="+cert, "--key="+key)
		c.clientCN = "sim-client"
	case 1:
		add("--p12=" + pf + ":s3cret:x")
		c.clientCN = "sim-client-p12"
	case 2:
		add("--cert="+filepath.Join(dir, "missing"), "--key="+key)
		c.usage = "missing certificate file"
	case 3:
		add("--cert="+cert, "--key="+garbage)
		c.usage = "bad key file"
	case 4:
		add("--p12=" + pf + ":wrong")
		c.usage = "wrong p12 password"
	case 5:
		add("--p12=" + garbage + ":x")
		c.usage = "bad p12 file"
	case 6:
		add("--cert=" + cert)
		c.usage = "--cert without --key"
	case 7:
		add("--cert="+cert, "--key="+key, "--p12="+pf+":s3cret:x")
		c.usage = "--cert and --p12"
	case 8:
		add("--p12=" + filepath.Join(dir, "missing.p12"))
		c.usage = "missing p12 file"
	case 9:
		add("--p12=" + w("n.p12", b64(nopwP12)) + []string{"", ":"}[st.N(2)])
		c.clientCN = "sim-client-nopw"
	case 10:
		add("--p12=" + w("k.p12", b64(nokeyP12)) + ":x")
		c.usage = "p12 file without a key"
	case 11:
		add("--key=" + key)
		c.usage = "--key without --cert"
	case 12:
		add("--p12=" + pf)
		c.usage = "missing p12 password"
	case 13:
		add("--cert="+cert, "--p12="+pf+":s3cret:x")
		c.usage = "--cert and --p12"
	case 14:
		add("--key="+key, "--p12="+pf+":s3cret:x")
		c.usage = "--key and --p12"
	}
}

var packaged = []string{"DigiCert_RDAP_Pilot_Client_Certificate.p12", "DigiCert_RDAP_Pilot_Client_Certificate_Expired.p12", "DigiCert_RDAP_Pilot_Client_Certificate_Revoked.p12"}

// genSandbox adds sandbox mode with hostile path arguments.
func genSandbox(p *Proc, st *Stream, c *cliCase) {
	s := p.s
	c.sandbox = true
	can := filepath.Join(s.opts.root, "canary")
	p12 := b64(clientP12)
	raw(func() {
		os.WriteFile(filepath.Join(can, "cert.pem"), certs.ccPEM, 0o600)
		os.WriteFile(filepath.Join(can, "key.pem"), certs.ckPEM, 0o600)
		os.WriteFile(filepath.Join(can, "x.p12"), p12, 0o600)
		os.WriteFile(filepath.Join(can, "args"), []byte("--raw\n"), 0o600)
		for _, n := range packaged {
			os.WriteFile(filepath.Join(can, n), p12, 0o600)
		}
	})
	add := func(a ...string) { c.args = append(c.args, a...) }
	if st.N(2) == 0 {
		c.opts.Sandbox = true
	} else {
		if st.N(3) == 0 {
			c.args = append([]string{"--exp", "sandbox"}, c.args...)
		} else {
			add("--exp=sandbox")
		}
	}
	hostile := func(name string) string {
		abs := filepath.Join(can, name)
		up := strings.Repeat("../", 14)
		switch st.N(8) {
		case 0:
			return abs
		case 1:
			return up + abs[1:]
		case 2:
			return packaged[0] + "/" + up + abs[1:]
		case 3:
			return "./" + up + abs[1:]
		case 4:
			r, err := filepath.Rel(startDir, abs)
			if err != nil {
				return abs
			}
			return r
		case 5:
			return "/" + abs
		case 6:
			return filepath.Join(can, "sub", "..") + "/../canary/" + name
		default:
			return filepath.Join(can, packaged[st.N(3)])
		}
	}
	// the cache directory argument is ignored
	var kept []string
	for _, a := range c.args {
		if !strings.HasPrefix(a, "--cache-dir") {
			kept = append(kept, a)
		}
	}
	c.args = kept
	if p.mem && st.N(2) == 0 {
		add("--cache-dir=")
	} else {
		c.store = s.world.storeOf(s.defaultDir)
		if st.P(700) {
			def := s.defaultDir.path
			rel, _ := filepath.Rel(def, can)
			switch st.N(7) {
			case 0:
				add("--cache-dir=" + can + "/newdir")
			case 1:
				add("--cache-dir=" + strings.Repeat("../", 14) + can[1:])
			case 2:
				add("--cache-dir", can)
			case 3:
				add("--cache-dir=" + def + "/" + rel)
			case 4:
				add("--cache-dir=" + def + "-evil")
				c.named = append(c.named, def+"-evil")
			case 5:
				add("--cache-dir=" + def + "/sub")
				c.named = append(c.named, def+"/sub")
			case 6:
				add("--cache-dir=" + filepath.Dir(def))
				for _, r := range regs {
					c.named = append(c.named, filepath.Dir(def)+"/"+c.svc.fileTag+r.file)
				}
			}
		}
	}
	if p.mem && c.store.dir == nil {
		c.store = &Store{name: "memory of " + p.task.name}
	}
	switch st.W(6, 10, 4, 4, 2, 3) {
	case 0:
	case 5:
		f := hostile("args")
		switch st.N(8) {
		case 4:
			add("-t", "@"+f)
		case 5:
			add("--type", "@"+f)
		case 6:
			add("--exp", "@"+f)
		case 7:
			add("--p12", "@"+f)
		case 0:
			add("@" + f)
		case 1:
			c.args = append([]string{"@" + f}, c.args...)
		case 2:
			add("-vk", "@"+f)
		case 3:
			add("-v", "--", "@"+f)
		}
		c.usage = "a file with arguments"
	case 1:
		pw := []string{"", ":s3cret:x", ":x"}[st.N(3)]
		n := append([]string{"x.p12"}, packaged...)[st.W(3, 1, 1, 1)]
		add("--p12=" + hostile(n) + pw)
		c.usage = "a p12 file outside of the sandbox"
	case 2:
		n := packaged[st.N(3)]
		add("--p12=" + n + ":wrong-password")
		c.usage = "wrong password of a packaged p12 file"
	case 3:
		add("--cert="+hostile("cert.pem"), "--key="+hostile("key.pem"))
	case 4:
		add("--cert=" + hostile("cert.pem"))
		c.usage = "--cert without --key"
	}
}

func runCLIOp(p *Proc, i int) {
	s := p.s
	key := fmt.Sprintf("%s.o%d", p.name, i)
	if s.tape.Dropped(key) {
		return
	}
	st := s.tape.S(key)
	p.task.st = st
	p.pause(st)
	p.disturbFiles(st)
	doCLI(p, key, genCLI(p, st, false), false)
}

func recoverCLI(p *Proc) {
	for i := range p.regs {
		key := fmt.Sprintf("%s.f%d", p.name, i)
		st := p.s.tape.S(key)
		c := genCLI(p, st, true)
		doCLI(p, key, c, true)
		if p.s.ended {
			return
		}
	}
}

func doCLI(p *Proc, key string, c *cliCase, final bool) {
	s := p.s
	op := p.begin(key, "cli")
	op.final = final
	op.store, op.svc, op.ttl = c.store, c.svc, c.ttl
	op.insecure = c.insecure
	op.tag = c.q.autoTag()
	op.desc = fmt.Sprintf("rdap %s", strings.ReplaceAll(strings.Join(c.args, " "), s.opts.root, "$S"))
	if c.argsFile != "" {
		op.desc += " (file: " + strings.ReplaceAll(c.argsFile, s.opts.root, "$S") + ")"
	}
	if c.opts.Sandbox {
		op.desc += " (sandbox)"
	}
	out := &outWriter{limit: c.outLimit, err: c.outErr}
	var stderr bytes.Buffer
	exit := -1
	op.run(func() {
		if c.usage == "" && c.info == "" {
			op.setLimit(s.now().Add(time.Duration(c.timeout)*time.Second), false)
		}
		exit = rdap.RunCLI(c.args, out, &stderr, c.opts)
	})
	if op.killed || s.ended {
		op.drop(s)
		return
	}
	s.ev("end", "%s exit=%d stdout=%d bytes stderr=%q", op.key, exit, out.buf.Len(), clipStr(strings.ReplaceAll(stderr.String(), s.opts.root, "$S"), 100))
	s.checkCLI(op, c, exit, out, stderr.Bytes())
	s.afterOp(op, nil)
	op.release()
}

func (s *Sim) checkCLI(op *Op, c *cliCase, exit int, out *outWriter, stderr []byte) {
	s.stats.check("C13")
	if c.sandbox {
		s.checkSandbox(op, c)
	}
	s.checkClientCert(op, c)
	stdout := out.buf.Bytes()
	if c.info != "" {
		s.settleDocs(op, false)
		if len(op.contacts) > 0 {
			s.violate("C13", "network-use", "%s %s contacts %s", op.key, op.desc, op.contacts[0].addr)
		}
		if op.sawFSFault {
			return // reading the arguments failed
		}
		if len(stdout) == 0 && c.outLimit != 0 || strings.ToUpper(c.info[1:2]) == "V" && exit != 0 && c.outLimit < 0 {
			s.violate("C13", "information", "%s %s exits with %d and prints %d bytes", op.key, op.desc, exit, len(stdout))
		}
		return
	}
	if c.verbose && len(bytes.TrimSpace(stderr)) == 0 {
		s.violate("C13", "not-verbose", "%s %s writes no verbose messages to standard error", op.key, op.desc)
	}
	if exit != 0 && len(bytes.TrimSpace(stderr)) == 0 {
		s.violate("C13", "silent-failure", "%s %s exits with %d and writes nothing to standard error", op.key, op.desc, exit)
	}
	if c.usage != "" {
		s.settleDocs(op, false)
		if exit == 0 {
			s.violate("C13 C15", "exit-status", "%s %s exits with 0 despite %s", op.key, op.desc, c.usage)
		}
		if len(op.contacts) > 0 {
			s.violate("C13 C15", "network-use", "%s %s contacts %s despite %s", op.key, op.desc, op.contacts[0].addr, c.usage)
		}
		if len(stdout) > 0 {
			s.violate("C13", "stdout", "%s %s fails, but writes to standard output: %q", op.key, op.desc, clipStr(string(stdout), 60))
		}
		return
	}
	// A query with no match looks like any other failure from here.
	noMatch := false
	if exit != 0 && c.q.reg != nil {
		b := s.bsOf(op)
		caused := op.sawFSFault || (b.attempted && b.ok == nil) || op.expired()
		if !caused {
			for _, d := range s.cands(op, op.svc, c.q.reg) {
				if _, u, _ := d.match(c.q.text); len(u) == 0 {
					noMatch = true
				}
			}
		}
	}
	v := s.judge(op, c.q, noMatch && len(s.attempts(op)) == 0, exit != 0, errors.New(clipStr(string(stderr), 80)))
	if len(s.viol) > 0 {
		return
	}
	if !v.success {
		if exit == 0 {
			s.violate("C13 C02 C19", "exit-status", "%s %s exits with 0, though no server gave a usable answer: %s", op.key, op.desc, s.attStr(v))
		}
		if len(stdout) > 0 {
			s.violate("C13 C19", "stdout", "%s %s fails, but writes to standard output: %q", op.key, op.desc, clipStr(string(stdout), 60))
		}
		return
	}
	s.stats.check("C14")
	r := v.decisive.last
	byz := map[bool]string{true: " C24"}[r.byz]
	want := expectOutput(c, r.body)
	if c.outLimit >= 0 && len(want) > c.outLimit {
		if exit == 0 {
			s.violate("C13 C14", "output-error", "%s %s exits with 0, though only %d of %d bytes could be written to standard output", op.key, op.desc, c.outLimit, len(want))
		}
		if !bytes.HasPrefix(want, stdout) {
			s.violate("C14", "output", "%s %s writes %q, expected was %q", op.key, op.desc, clipStr(string(stdout), 200), clipStr(string(want), 200))
		}
		return
	}
	if exit != 0 {
		p := "C13 C01"
		if r.doneAt.Before(op.limit) {
			p = "C13 C03 C01 C19"
		}
		s.violate(p, "exit-status", "%s %s exits with %d, though %s gave a usable answer (%s, %s): %q", op.key, op.desc, exit, v.decisive.addr, r.kind, r.framing, clipStr(string(stderr), 80))
		return
	}
	if !c.raw && !c.json {
		s.checkForged(op, stdout, "")
	}
	if !bytes.Equal(stdout, want) {
		s.violate("C14 C13"+byz, "output", "%s %s: standard output differs from the response of %s: got %d bytes %q, expected %d bytes %q", op.key, op.desc, v.decisive.addr, len(stdout), clipStr(string(stdout), 200), len(want), clipStr(string(want), 200))
		return
	}
	// The object must be shown as the JSON has it.
	d := sanitizeBody(r.body)
	if c.text && !c.raw && !c.json {
		if d := diffText(wantText(d, textOpts{briefLinks: true}), gotText(stdout, " ")); d != "" {
			s.violate("C14"+byz, "output-lacks", "%s %s: the text output differs from the object: %s", op.key, op.desc, d)
		}
	}
	if c.whois && !c.text && !c.raw && !c.json {
		got := strings.Split(strings.TrimSuffix(string(stdout), "\n"), "\n")
		if len(stdout) == 0 {
			got = nil
		}
		sortKeys(got)
		if want := wantWhois(d); strings.Join(want, "\n") != strings.Join(got, "\n") {
			s.violate("C14"+byz, "output-lacks", "%s %s: the whois output has the lines %q, expected were %q", op.key, op.desc, got, want)
		}
	}
}

// expectOutput is the reference model of the output.
func expectOutput(c *cliCase, body []byte) []byte {
	var b bytes.Buffer
	obj := decodeBody(body)
	if c.text {
		(&rdap.Printer{Writer: &b, BriefLinks: true}).Print(obj)
	}
	if c.raw {
		b.Write(body)
	}
	if c.json {
		json.Indent(&b, body, "", "  ")
	}
	if c.whois {
		w := (&rdap.Response{Object: obj}).ToWhoisStyleResponse()
		for _, k := range w.KeyDisplayOrder {
			for _, v := range w.Data[k] {
				fmt.Fprintf(&b, "%s: %s\n", k, whoisSafe.Replace(v))
			}
		}
	}
	return b.Bytes()
}

// checkTLS: no request reaches a server which was not authenticated.
func (s *Sim) checkTLS(op *Op) {
	for _, r := range op.reqs {
		if !strings.HasPrefix(r.url, "https") {
			continue
		}
		s.stats.check("C15")
		if r.insecure && !op.insecure {
			s.violate("C15", "unauthenticated", "%s %s sends %s to a server with a bad certificate", op.key, op.desc, r.url)
		}
	}
	if !op.insecure || op.expired() {
		return
	}
	for _, c := range op.contacts {
		if c.cert != "" && c.req == nil && !c.failed && !c.ready.IsZero() {
			s.violate("C15", "insecure-ignored", "%s %s does not use %s, which has a bad certificate (%s)", op.key, op.desc, c.addr, c.cert)
		}
	}
}

func (s *Sim) checkClientCert(op *Op, c *cliCase) {
	for _, r := range op.reqs {
		if r.askedCert && r.clientCN != c.clientCN {
			s.violate("C15", "client-certificate", "%s %s presents the client certificate %q to %s, expected %q", op.key, op.desc, r.clientCN, r.url, c.clientCN)
		}
	}
}

// checkSandbox checks the file accesses of a sandboxed command.
func (s *Sim) checkSandbox(op *Op, c *cliCase) {
	s.stats.check("C16")
	def := s.defaultDir.path
	can := filepath.Join(s.opts.root, "canary")
	for _, a := range s.fs.access[op.access0:] {
		if a.task != op.task {
			continue
		}
		if a.path == can || strings.HasPrefix(a.path, can+"/") {
			s.violate("C16", "sandbox", "%s %s: %s of %s, a path named by an argument", op.key, op.desc, a.op, s.fs.rel(a.path))
			continue
		}
		for _, n := range c.named {
			if strings.HasPrefix(a.path, n) {
				s.violate("C16", "sandbox", "%s %s: %s of %s, a path named by an argument", op.key, op.desc, a.op, s.fs.rel(a.path))
			}
		}
		if !a.write {
			continue
		}
		if a.path == def || (a.op == "mkdirat" && strings.HasPrefix(def, a.path)) {
			continue
		}
		ok := false
		if filepath.Dir(a.path) == def {
			for _, r := range regs {
				ok = ok || strings.Contains(filepath.Base(a.path), r.file)
			}
		}
		if !ok {
			s.violate("C16", "sandbox", "%s %s: %s of %s, which is no registry document in the default cache directory", op.key, op.desc, a.op, s.fs.rel(a.path))
		}
	}
}

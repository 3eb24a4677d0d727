package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Net is the simulated network: dialling yields in-memory connections to
// simulated servers. net/http's client, transport and crypto/tls run for real
// on top of them.
type Net struct {
	s      *Sim
	conns  []*simConn
	nextID int
	bodies []*bodyRec
}

// Contact is one attempt of a client to reach a server (a dial, or a request
// on a kept-alive connection).
type Contact struct {
	seq     uint64
	at      time.Time
	addr    string // host:port
	op      *Op
	req     *ReqLog // the request received, if any
	refused bool
	cert    string    // fault of the server's certificate
	failed  bool      // by a fault, not by the client giving up
	ready   time.Time // when the connection is planned to be ready; zero if never
}

// ReqLog is a request received by a server.
type ReqLog struct {
	leftover  bool // sent over a connection made by an earlier operation
	seq       uint64
	at        time.Time
	url       string
	host      string
	op        *Op
	reply     *Reply
	insecure  bool // received over a TLS connection with a bad certificate
	clientCN  string
	askedCert bool
	header    http.Header
	method    string
	redirect  bool
	hops      int
}

// Reply is what a server did with a request.
type Reply struct {
	id        int
	status    int
	body      []byte // body meant to be sent
	complete  bool   // whole reply will be delivered
	doneAt    time.Time
	due       time.Time // when delivery is planned to be complete
	delivered bool
	usable    bool // 2xx, complete, decodable RDAP object
	notFound  bool // complete 404
	redirect  string
	kind      string
	objType   string
	doc       *Doc // bootstrap document sent
	failed    bool // the server gave up before the end
	framing   string
	byz       bool // a Byzantine server may give any field any value
}

type bodyRec struct {
	op     *Op
	url    string
	closed bool
	eof    bool
	err    error
	seq    uint64
}

type simConn struct {
	n        *Net
	id       int
	addr     string
	task     *Task
	c2s, s2c pipe
	reqs     int
	badCert  string
	closed   bool

	sent   []sentRec // the client's writes, to tell whose request arrives
	nsent  int
	nread  int
	dialer *Op
}

type sentRec struct {
	off, n int
	op     *Op
}

// writer returns the operation which sent the last request read so far.
func (c *simConn) writer() *Op {
	var op *Op
	for _, r := range c.sent {
		if r.off < c.nread && r.n > 60 { // not just a TLS alert
			op = r.op
		}
	}
	return op
}

// pipe is one direction of a connection: an unbounded buffer.
type pipe struct {
	mu   sync.Mutex
	buf  []byte
	err  error // error after the buffered data, for the reader
	sig  chan struct{}
	dead bool // reader gone
}

func (p *pipe) init() { p.sig = make(chan struct{}, 1) }

func (p *pipe) notify() {
	select {
	case p.sig <- struct{}{}:
	default:
	}
}

func (p *pipe) write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.dead {
		return 0, syscall.EPIPE
	}
	if p.err != nil {
		return 0, net.ErrClosed
	}
	p.buf = append(p.buf, b...)
	p.notify()
	return len(b), nil
}

func (p *pipe) fail(err error) {
	p.mu.Lock()
	if p.err == nil {
		p.err = err
	}
	p.mu.Unlock()
	p.notify()
}

func (p *pipe) read(b []byte) (int, error) {
	for {
		p.mu.Lock()
		if len(p.buf) > 0 {
			n := copy(b, p.buf)
			p.buf = p.buf[n:]
			p.mu.Unlock()
			return n, nil
		}
		if p.err != nil {
			err := p.err
			p.mu.Unlock()
			p.notify() // wake other readers
			return 0, err
		}
		p.mu.Unlock()
		<-p.sig
	}
}

// end is one side of a connection.
type end struct {
	c      *simConn
	client bool
}

func (e *end) in() *pipe {
	if e.client {
		return &e.c.s2c
	}
	return &e.c.c2s
}

func (e *end) out() *pipe {
	if e.client {
		return &e.c.c2s
	}
	return &e.c.s2c
}

func (e *end) Read(b []byte) (int, error) {
	n, err := e.in().read(b)
	if !e.client {
		e.c.nread += n
	}
	return n, err
}

func (e *end) Write(b []byte) (int, error) {
	if e.client {
		if t := curTask(); t != nil {
			e.c.sent = append(e.c.sent, sentRec{e.c.nsent, len(b), t.op})
		}
		e.c.nsent += len(b)
	}
	return e.out().write(b)
}
func (e *end) Close() error {
	e.out().fail(io.EOF)
	in := e.in()
	in.mu.Lock()
	in.dead = true
	in.mu.Unlock()
	in.fail(net.ErrClosed)
	if e.client {
		e.c.closed = true
	}
	return nil
}

// reset breaks the connection: the peer reads an error at once, buffered data is lost.
func (e *end) reset() {
	o := e.out()
	o.mu.Lock()
	o.mu.Unlock()
	o.fail(syscall.ECONNRESET)
	in := e.in()
	in.mu.Lock()
	in.dead = true
	in.mu.Unlock()
	in.fail(net.ErrClosed)
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

func (e *end) LocalAddr() net.Addr                { return simAddr("sim") }
func (e *end) RemoteAddr() net.Addr               { return simAddr(e.c.addr) }
func (e *end) SetDeadline(t time.Time) error      { return nil }
func (e *end) SetReadDeadline(t time.Time) error  { return nil }
func (e *end) SetWriteDeadline(t time.Time) error { return nil }

func newNet(s *Sim) *Net { return &Net{s: s} }

func (n *Net) closeAll() {
	for _, c := range n.conns {
		c.c2s.fail(io.EOF)
		c.s2c.fail(syscall.ECONNRESET)
	}
}

// killTask drops the connections of a dead process.
func (n *Net) killTask(t *Task) {
	for _, c := range n.conns {
		if c.task != nil && c.task.proc == t.proc {
			c.c2s.fail(io.EOF)
			c.s2c.fail(syscall.ECONNRESET)
		}
	}
}

// openConns counts connections the client side has not closed.
func (n *Net) openConns(t *Task) int {
	k := 0
	for _, c := range n.conns {
		if !c.closed && c.task == t {
			k++
		}
	}
	return k
}

func installNetSeams() {
	net.SimDial = func(ctx context.Context, network, address string) (net.Conn, error) {
		if theSim == nil {
			return nil, errors.New("no network outside of a simulation")
		}
		return theSim.net.dial(ctx, address)
	}
	http.SimObserve = func(tr *http.Transport, req *http.Request, resp *http.Response, err error) {
		t := curTask()
		if theSim == nil || t == nil || resp == nil || resp.Body == nil {
			return
		}
		n := theSim.net
		r := &bodyRec{op: t.op, url: req.URL.String(), seq: theSim.nextSeq()}
		n.bodies = append(n.bodies, r)
		resp.Body = &trackedBody{resp.Body, r}
	}
	sync.SimLockHook = func(try func() bool) bool {
		t := curTask()
		if theSim == nil || t == nil || theSim.ended {
			return false
		}
		theSim.stats.LockWaits++
		theSim.parkOn(t, "lock", 0, try)
		return !theSim.ended
	}
}

type trackedBody struct {
	io.ReadCloser
	r *bodyRec
}

func (b *trackedBody) Read(p []byte) (int, error) {
	n, err := b.ReadCloser.Read(p)
	if err == io.EOF {
		b.r.eof = true
	} else if err != nil {
		b.r.err = err
	}
	return n, err
}

func (b *trackedBody) Close() error {
	b.r.closed = true
	return b.ReadCloser.Close()
}

// dial connects a task to a simulated server.
func (n *Net) dial(ctx context.Context, addr string) (net.Conn, error) {
	s := n.s
	t := curTask()
	if t == nil || t.dead || s.ended {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ENETDOWN}
	}
	op := t.op
	ct := &Contact{seq: s.nextSeq(), at: s.now(), addr: addr, op: op}
	if op != nil {
		op.contacts = append(op.contacts, ct)
	}
	b := s.world.connect(t, op, addr)
	ct.cert = b.cert
	s.ev("dial", "%s %s: %s", t.name, addr, b.String())
	if b.err == nil && !b.stall && !b.hsErr && !b.hsStall && (b.cert == "" || (op != nil && op.insecure)) {
		ct.ready = s.now().Add(b.delay + b.hsDelay)
	}
	if b.delay > 0 {
		tm := time.NewTimer(b.delay)
		select {
		case <-ctx.Done():
			tm.Stop()
			ct.refused = true
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: ctx.Err()}
		case <-s.endCh:
			tm.Stop()
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ENETDOWN}
		case <-t.killed:
			tm.Stop()
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ENETDOWN}
		case <-tm.C:
		}
	}
	if b.stall {
		select {
		case <-ctx.Done():
			ct.refused = true
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: ctx.Err()}
		case <-s.endCh:
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ENETDOWN}
		case <-t.killed:
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ENETDOWN}
		}
	}
	if t.dead || s.ended {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ENETDOWN}
	}
	if b.hsErr || b.hsStall || b.hsDelay > 9*time.Second || (b.cert != "" && (op == nil || !op.insecure)) {
		ct.failed = true
	}
	if b.err != nil {
		ct.refused, ct.failed = true, true
		return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: simAddr(addr), Err: b.err}
	}
	n.nextID++
	c := &simConn{n: n, id: n.nextID, addr: addr, task: t, badCert: b.cert, dialer: op}
	c.c2s.init()
	c.s2c.init()
	n.conns = append(n.conns, c)
	s.servers++
	go n.serve(c, b, ct)
	return &end{c, true}, nil
}

// connPlan is how a server treats a new connection.
type connPlan struct {
	delay   time.Duration
	stall   bool
	err     error
	tls     bool
	cert    string        // "" good
	hsErr   bool          // breaks off during the TLS handshake
	hsStall bool          // never answers the TLS handshake
	hsDelay time.Duration // before the TLS handshake
	askCC   bool          // asks for a client certificate
}

func (b connPlan) String() string {
	x := "ok"
	if b.err != nil {
		x = b.err.Error()
	} else if b.stall {
		x = "stall"
	}
	if b.tls {
		x += " tls"
	}
	if b.cert != "" {
		x += " cert=" + b.cert
	}
	if b.hsErr {
		x += " handshake-failure"
	}
	if b.hsStall {
		x += " handshake-stall"
	}
	if b.hsDelay > 0 {
		x += " handshake after " + b.hsDelay.String()
	}
	if b.delay > 0 {
		x += " after " + b.delay.String()
	}
	return x
}

// wait lets simulated time pass for a server; false if the run ended.
func (n *Net) wait(d time.Duration) bool {
	if d <= 0 {
		return !n.s.ended
	}
	tm := time.NewTimer(d)
	select {
	case <-tm.C:
		return !n.s.ended
	case <-n.s.endCh:
		tm.Stop()
		return false
	}
}

// serve runs the server side of a connection.
func (n *Net) serve(c *simConn, b connPlan, ct *Contact) {
	runtime.SimSetLabel(nil)
	s := n.s
	defer func() { s.servers-- }()
	e := &end{c, false}
	defer e.Close()
	var conn net.Conn = e
	clientCN := ""
	if b.tls {
		if b.hsErr {
			e.reset()
			return
		}
		if b.hsStall {
			io.Copy(io.Discard, e)
			return
		}
		if !n.wait(b.hsDelay) {
			return
		}
		cfg := &tls.Config{Certificates: []tls.Certificate{certs.get(b.cert)}, MinVersion: tls.VersionTLS12, SessionTicketsDisabled: true}
		if b.askCC {
			cfg.ClientAuth = tls.RequestClientCert
		}
		tc := tls.Server(e, cfg)
		if err := tc.Handshake(); err != nil {
			return
		}
		if pc := tc.ConnectionState().PeerCertificates; len(pc) > 0 {
			clientCN = pc[0].Subject.CommonName
		}
		conn = tc
	}
	br := bufio.NewReader(conn)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		tt := *c.task
		t := &tt
		t.op = c.writer()
		c.reqs++
		if c.reqs > 1 || ct.op != t.op {
			ct = &Contact{seq: s.nextSeq(), at: s.now(), addr: c.addr, op: t.op}
			if t.op != nil {
				t.op.contacts = append(t.op.contacts, ct)
			}
		}
		scheme := "http"
		if b.tls {
			scheme = "https"
		}
		u := *req.URL
		u.Scheme = scheme
		u.Host = req.Host
		rl := &ReqLog{seq: s.nextSeq(), at: s.now(), url: u.String(), host: req.Host, op: t.op,
			leftover: c.dialer != t.op, insecure: b.cert != "", clientCN: clientCN, askedCert: b.askCC, header: req.Header, method: req.Method}
		ct.req = rl
		if t.op != nil {
			t.op.reqs = append(t.op.reqs, rl)
		}
		s.stats.Requests++
		p := s.world.respond(t, rl, &u, c.reqs > 1 || c.dialer != t.op)
		rl.reply = p.reply
		p.reply.due = s.now().Add(p.finDelay)
		for _, x := range p.steps {
			p.reply.due = p.reply.due.Add(x.delay)
		}
		s.ev("request", "%s -> %s: %s", t.name, u.String(), p.String())
		if !n.execute(conn, e, p) {
			return
		}
		if p.close {
			return
		}
	}
}

// plan is how a server answers one request.
type plan struct {
	reply    *Reply
	steps    []step
	close    bool   // close the connection afterwards
	finish   string // "", "close", "reset", "stall"
	desc     string
	finDelay time.Duration
}

type step struct {
	delay time.Duration
	data  []byte
}

func (p *plan) String() string { return p.desc }

func (n *Net) execute(conn net.Conn, e *end, p *plan) bool {
	for i, st := range p.steps {
		if !n.wait(st.delay) {
			return false
		}
		if i == len(p.steps)-1 && p.reply.complete && p.finDelay == 0 {
			p.reply.delivered, p.reply.doneAt = true, n.s.now()
		}
		if len(st.data) > 0 {
			if _, err := conn.Write(st.data); err != nil {
				return false
			}
		}
	}
	if !n.wait(p.finDelay) {
		return false
	}
	switch p.finish {
	case "reset":
		e.reset()
		p.reply.failed = true
		return false
	case "stall":
		// Wait until the client gives up.
		io.Copy(io.Discard, conn)
		return false
	case "close":
		conn.Close()
		return false
	}
	return true
}

// framing of a body
const (
	frLength = iota
	frChunked
	frClose
	frGzip
	frGzipChunked
)

var frNames = []string{"length", "chunked", "until-close", "gzip", "gzip-chunked"}

// encode turns a reply into bytes on the wire. cut < 0 sends everything;
// otherwise the body is cut after cut bytes (of the encoded body).
func encode(status int, hdr [][2]string, body []byte, framing int, cut int, cutClean bool) (wire []byte, headLen int, complete bool) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\n", status, http.StatusText(status))
	for _, h := range hdr {
		fmt.Fprintf(&b, "%s: %s\r\n", h[0], h[1])
	}
	enc := body
	if framing == frGzip || framing == frGzipChunked {
		var z bytes.Buffer
		w := gzip.NewWriter(&z)
		w.Write(body)
		w.Close()
		enc = z.Bytes()
		b.WriteString("Content-Encoding: gzip\r\n")
	}
	complete = true
	full := len(enc)
	if cut >= 0 {
		if len(enc) == 0 {
			cut = -1
		} else {
			cut %= len(enc)
			enc = enc[:cut]
			complete = false
		}
	}
	switch framing {
	case frLength, frGzip:
		n := full
		if cutClean && cut >= 0 {
			n = len(enc) // a proxy which truncated and re-framed the body
		}
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", n)
		headLen = b.Len()
		b.Write(enc)
	case frClose:
		b.WriteString("Connection: close\r\n\r\n")
		headLen = b.Len()
		b.Write(enc)
	default:
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		headLen = b.Len()
		rest := enc
		for i := 0; len(rest) > 0; i++ {
			k := min(len(rest), 37+i*113)
			fmt.Fprintf(&b, "%x\r\n", k)
			b.Write(rest[:k])
			b.WriteString("\r\n")
			rest = rest[k:]
		}
		if cut < 0 || cutClean {
			b.WriteString("0\r\n\r\n")
		}
	}
	return b.Bytes(), headLen, complete
}

// ---------------------------------------------------------------- certificates

type certSet struct {
	caPEM  []byte
	by     map[string]tls.Certificate
	client tls.Certificate
	ccPEM  []byte
	ckPEM  []byte
}

var certs *certSet

func (c *certSet) get(kind string) tls.Certificate { return c.by[kind] }

func mkCert(cn string, all []string, from, to time.Time, ca bool, parent *x509.Certificate, pkey *ecdsa.PrivateKey) (tls.Certificate, *x509.Certificate, *ecdsa.PrivateKey) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	serial, _ := rand.Int(rand.Reader, big.NewInt(1<<60))
	var names []string
	var ips []net.IP
	for _, n := range all {
		if ip := net.ParseIP(n); ip != nil {
			ips = append(ips, ip)
		} else {
			names = append(names, n)
		}
	}
	tmpl := &x509.Certificate{SerialNumber: serial, Subject: pkix.Name{CommonName: cn}, DNSNames: names, IPAddresses: ips,
		NotBefore: from, NotAfter: to, IsCA: ca, BasicConstraintsValid: true,
		KeyUsage:    x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	if parent == nil {
		parent, pkey = tmpl, k
	}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, parent, &k.PublicKey, pkey)
	if err != nil {
		panic(err)
	}
	x, _ := x509.ParseCertificate(der)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k, Leaf: x}, x, k
}

func makeCerts(dir string) {
	day := 24 * time.Hour
	t0 := time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC)
	t9 := time.Date(2140, 1, 1, 0, 0, 0, 0, time.UTC)
	base := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)
	names := []string{"*.rdap.test", "data.iana.org", "test.rdap.net", "bs-one.test", "bs-two.test", "bs-three.test", "direct.test", "redir.test", "bsredir.test", "192.0.2.77"}
	_, ca, cak := mkCert("Sim CA", nil, t0, t9, true, nil, nil)
	_, ca2, cak2 := mkCert("Unknown CA", nil, t0, t9, true, nil, nil)
	c := &certSet{by: map[string]tls.Certificate{}}
	put := func(kind string, cert tls.Certificate, _ *x509.Certificate, _ *ecdsa.PrivateKey) { c.by[kind] = cert }
	a, b, k := mkCert("good", names, t0, t9, false, ca, cak)
	put("", a, b, k)
	a, b, k = mkCert("expired", names, t0, base.Add(-day), false, ca, cak)
	put("expired", a, b, k)
	a, b, k = mkCert("future", names, base.Add(60*365*day), t9, false, ca, cak)
	put("not-yet-valid", a, b, k)
	a, b, k = mkCert("other", []string{"other.example"}, t0, t9, false, ca, cak)
	put("wrong-name", a, b, k)
	a, b, k = mkCert("selfsigned", names, t0, t9, false, nil, nil)
	put("self-signed", a, b, k)
	a, b, k = mkCert("unknown-ca", names, t0, t9, false, ca2, cak2)
	put("unknown-ca", a, b, k)
	c.client, b, k = mkCert("sim-client", nil, t0, t9, false, ca, cak)
	kb, _ := x509.MarshalECPrivateKey(k)
	c.ccPEM = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.client.Certificate[0]})
	c.ckPEM = pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})
	c.caPEM = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: ca.Raw})
	certs = c
	p := filepath.Join(dir, "ca.pem")
	if err := os.WriteFile(p, c.caPEM, 0o600); err != nil {
		panic(err)
	}
	os.MkdirAll(filepath.Join(dir, "nocerts"), 0o700)
	os.Setenv("SSL_CERT_FILE", p)
	os.Setenv("SSL_CERT_DIR", filepath.Join(dir, "nocerts"))
	if _, err := x509.SystemCertPool(); err != nil {
		panic(err)
	}
}

func hostOf(addr string) string {
	h, _, err := net.SplitHostPort(addr)
	if err != nil {
		return addr
	}
	return h
}

func parseURL(x string) *url.URL {
	u, err := url.Parse(x)
	if err != nil {
		return &url.URL{Scheme: "http", Host: "unparsable.invalid", Path: x}
	}
	return u
}

var _ = strings.TrimSpace

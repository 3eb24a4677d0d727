package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// The servers. What they send depends on the request only.

func answer(host, path, query string) (int, string) {
	host = strings.TrimSuffix(strings.TrimSuffix(host, ":443"), ":80")
	i := strings.LastIndexByte(path, '/')
	last := path[i+1:]
	switch host {
	case "data.iana.org", "bs1.test", "bs2.test":
		v := map[string]string{"data.iana.org": "", "bs1.test": "p", "bs2.test": "q"}[host]
		if strings.Contains(path, "missing") {
			return 404, "none"
		}
		return 200, regDoc(last, v)
	}
	tag := fmt.Sprint(10 + (len(host)*7+len(last)*3+int(host[0]))%49)
	if strings.HasPrefix(host, "down") || strings.HasPrefix(host, "com") && strings.HasPrefix(path, "/r/") {
		return 500, "down"
	}
	if strings.Contains(last, "nosuch") {
		return 404, objDoc("error", "04")
	}
	dir := path[:i]
	switch dir[strings.LastIndexByte(dir, '/')+1:] {
	case "domain":
		return 200, objDoc("domain", tag)
	case "autnum":
		return 200, objDoc("autnum", tag)
	case "entity":
		return 200, objDoc("entity", tag)
	case "nameserver":
		return 200, objDoc("nameserver", tag)
	}
	switch {
	case strings.Contains(path, "/ip/"):
		return 200, objDoc("ip", tag)
	case last == "domains":
		return 200, objDoc("domains", tag)
	case last == "help":
		return 200, objDoc("help", tag)
	case last == "error":
		return 400, objDoc("error", "00")
	}
	return 200, objDoc("odd", tag)
}

type handler struct{}

func (handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	st, body := answer(r.Host, r.URL.Path, r.URL.RawQuery)
	if r.TLS != nil && len(r.TLS.PeerCertificates) > 0 {
		w.Header().Set("X-Client", r.TLS.PeerCertificates[0].Subject.CommonName)
	}
	w.Header().Set("Content-Type", "application/rdap+json")
	w.WriteHeader(st)
	io.WriteString(w, body)
}

// one is a listener for a single connection.
type one struct{ c chan net.Conn }

func (o one) Accept() (net.Conn, error) {
	c, ok := <-o.c
	if !ok {
		return nil, io.EOF
	}
	return c, nil
}
func (o one) Close() error   { return nil }
func (o one) Addr() net.Addr { return &net.TCPAddr{} }

func dial(ctx context.Context, network, address string) (net.Conn, error) {
	host, port, _ := net.SplitHostPort(address)
	if strings.HasPrefix(host, "refuse") || !(strings.HasSuffix(host, ".test") || host == "data.iana.org") {
		return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("connection refused")}
	}
	a, b := pipe()
	var c net.Conn = b
	if port == "443" {
		cert := goodCert
		if strings.HasPrefix(host, "bad") {
			cert = badCert
		}
		c = tls.Server(b, &tls.Config{Certificates: []tls.Certificate{cert}, ClientAuth: tls.RequestClientCert})
	}
	o := one{make(chan net.Conn, 1)}
	o.c <- c
	close(o.c)
	s := &http.Server{Handler: handler{}, ErrorLog: nolog}
	go s.Serve(o)
	return a, nil
}

// stub is a transport without connections.
type stub struct {
	insecure bool
}

func (t *stub) RoundTrip(r *http.Request) (*http.Response, error) {
	yield()
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	if strings.HasPrefix(r.URL.Host, "refuse") {
		return nil, errors.New("connection refused")
	}
	st, body := answer(r.URL.Host, r.URL.Path, r.URL.RawQuery)
	yield()
	return &http.Response{StatusCode: st, Status: http.StatusText(st), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{},
		Body: &slowBody{strings.NewReader(body)}, ContentLength: int64(len(body)), Request: r}, nil
}

// slowBody gives a chunk at a time.
type slowBody struct{ r *strings.Reader }

func (b *slowBody) Read(p []byte) (int, error) {
	yield()
	if len(p) > 300 {
		p = p[:300]
	}
	return b.r.Read(p)
}
func (b *slowBody) Close() error { return nil }

var goodCert, badCert tls.Certificate

func genCerts(dir string) {
	t0, t9 := time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2140, 1, 1, 0, 0, 0, 0, time.UTC)
	mk := func(file, cn string, names []string, ca *x509.Certificate, cak *ecdsa.PrivateKey) (*x509.Certificate, *ecdsa.PrivateKey) {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		fatal(err)
		n, _ := rand.Int(rand.Reader, big.NewInt(1<<60))
		t := &x509.Certificate{SerialNumber: n, Subject: pkix.Name{CommonName: cn}, DNSNames: names, NotBefore: t0, NotAfter: t9, IsCA: ca == nil,
			BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
			ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
		p := ca
		pk := cak
		if p == nil {
			p, pk = t, k
		}
		der, err := x509.CreateCertificate(rand.Reader, t, p, &k.PublicKey, pk)
		fatal(err)
		x, err := x509.ParseCertificate(der)
		fatal(err)
		kb, err := x509.MarshalECPrivateKey(k)
		fatal(err)
		fatal(os.WriteFile(filepath.Join(dir, file+".pem"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600))
		fatal(os.WriteFile(filepath.Join(dir, file+".key"), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0o600))
		return x, k
	}
	ca, cak := mk("ca", "CA", nil, nil, nil)
	mk("good", "good", []string{"*.test", "data.iana.org"}, ca, cak)
	mk("bad", "bad", []string{"*.test"}, nil, nil)
	mk("client1", "client-one", nil, ca, cak)
	mk("client2", "client-two", nil, ca, cak)
	os.MkdirAll(filepath.Join(dir, "none"), 0o700)
}

func loadCerts(dir string) {
	var err error
	goodCert, err = tls.LoadX509KeyPair(filepath.Join(dir, "good.pem"), filepath.Join(dir, "good.key"))
	fatal(err)
	badCert, err = tls.LoadX509KeyPair(filepath.Join(dir, "bad.pem"), filepath.Join(dir, "bad.key"))
	fatal(err)
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

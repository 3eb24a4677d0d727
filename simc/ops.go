package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
	"github.com/openrdap/rdap/sandbox"
)

func yield() { runtime.SimYield() }

// dump writes a value in a canonical way.
func dump(v any) string {
	var b strings.Builder
	dumpTo(&b, reflect.ValueOf(v), 0)
	return b.String()
}

func dumpTo(b *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() || depth > 40 {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dumpTo(b, v.Elem(), depth+1)
	case reflect.Struct:
		fmt.Fprintf(b, "%s{", v.Type())
		for i := 0; i < v.NumField(); i++ {
			fmt.Fprintf(b, "%s:", v.Type().Field(i).Name)
			dumpTo(b, v.Field(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dumpTo(b, v.Index(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			var kb strings.Builder
			dumpTo(&kb, k, depth+1)
			kb.WriteString("=")
			dumpTo(&kb, v.MapIndex(k), depth+1)
			l = append(l, kb.String())
		}
		sort.Strings(l)
		fmt.Fprintf(b, "map%v", l)
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	default:
		fmt.Fprintf(b, "<%s>", v.Kind())
	}
}

// Op is an operation of the catalogue.
type Op struct {
	key string
	run func(dir string, sh *shared) string
}

// shared holds what several operations may use at once without changing it.
type shared struct {
	obj  rdap.RDAPObject
	resp *rdap.Response
	req  *rdap.Request
	vc   *rdap.VCard
	reg  *bootstrap.NetRegistry
	dns  *bootstrap.DNSRegistry
	asn  *bootstrap.ASNRegistry
}

func newShared() *shared {
	sh := &shared{}
	var err error
	sh.obj, err = rdap.NewDecoder([]byte(objDoc("domain", "33"))).Decode()
	fatal(err)
	sh.resp = &rdap.Response{Object: sh.obj}
	sh.req = &rdap.Request{Type: rdap.DomainRequest, Query: "shared.com", Server: mustURL("http://shared.test/base/?k=v"), Params: url.Values{"a": {"1", "2"}}, Timeout: time.Hour}
	sh.vc, err = rdap.NewVCard([]byte(vcard("44")))
	fatal(err)
	sh.reg, err = bootstrap.NewNetRegistry([]byte(regDoc("ipv4.json", "z")), 4)
	fatal(err)
	sh.dns, err = bootstrap.NewDNSRegistry([]byte(regDoc("dns.json", "z")))
	fatal(err)
	sh.asn, err = bootstrap.NewASNRegistry([]byte(regDoc("asn.json", "z")))
	fatal(err)
	return sh
}

func mustURL(x string) *url.URL {
	u, err := url.Parse(x)
	fatal(err)
	return u
}

func errString(err error) string {
	if err == nil {
		return "ok"
	}
	var ce *rdap.ClientError
	if errors.As(err, &ce) {
		return fmt.Sprintf("ClientError %d %s", ce.Type, ce.Text)
	}
	return err.Error()
}

func respString(r *rdap.Response, err error) string {
	s := errString(err)
	if r != nil {
		s += " " + dump(r.Object)
		if r.BootstrapAnswer != nil {
			s += " answer " + answerString(r.BootstrapAnswer)
		}
		for _, h := range r.HTTP {
			st := 0
			x := ""
			if h.Response != nil {
				st = h.Response.StatusCode
				x = h.Response.Header.Get("X-Client")
			}
			s += fmt.Sprintf("\n%s %d %s %s %v", h.URL, st, x, h.Body, h.Error)
		}
	}
	return s
}

func answerString(a *bootstrap.Answer) string {
	s := a.Query + " " + a.Entry
	for _, u := range a.URLs {
		s += " " + u.String()
	}
	return s
}

var times = regexp.MustCompile(`[0-9.]+(ns|µs|ms|s)\b`)

func cliRun(opts rdap.CLIOptions, args ...string) string {
	var out, errb bytes.Buffer
	rc := rdap.RunCLI(args, &yw{w: &out}, &yw{w: &errb}, opts)
	return fmt.Sprintf("exit %d\n%s\n--\n%s", rc, out.String(), times.ReplaceAllString(errb.String(), "T"))
}

// yw is a writer with a scheduling point.
type yw struct{ w *bytes.Buffer }

func (y *yw) Write(p []byte) (int, error) {
	yield()
	return y.w.Write(p)
}

func catalogue(certDir string) []Op {
	var l []Op
	add := func(key string, f func(dir string, sh *shared) string) { l = append(l, Op{key, f}) }
	for _, k := range []string{"domain", "ip", "autnum", "nameserver", "entity", "help", "error", "domains", "entities", "nameservers", "odd", "bad"} {
		for _, tag := range []string{"11", "22"} {
			doc := []byte(objDoc(k, tag))
			add("decode-"+k+tag, func(string, *shared) string {
				o, err := rdap.NewDecoder(append([]byte(nil), doc...)).Decode()
				return fmt.Sprint(err) + dump(o)
			})
		}
		if k == "bad" {
			continue
		}
		doc := []byte(objDoc(k, "55"))
		add("print-"+k, func(string, *shared) string {
			o, err := rdap.NewDecoder(doc).Decode()
			if err != nil {
				return err.Error()
			}
			var b bytes.Buffer
			(&rdap.Printer{Writer: &yw{&b}}).Print(o)
			return b.String()
		})
	}
	for i, p := range []rdap.Printer{{BriefLinks: true}, {BriefOutput: true, IndentSize: 4}, {OmitNotices: true, OmitRemarks: true, IndentChar: '\t', IndentSize: 1}} {
		add(fmt.Sprintf("print-shared-%d", i), func(_ string, sh *shared) string {
			var b bytes.Buffer
			q := p
			q.Writer = &yw{&b}
			q.Print(sh.obj)
			return b.String()
		})
	}
	add("whois-shared", func(_ string, sh *shared) string { return dump(sh.resp.ToWhoisStyleResponse()) })
	add("whois-own", func(_ string, sh *shared) string {
		o, _ := rdap.NewDecoder([]byte(objDoc("domain", "66"))).Decode()
		return dump((&rdap.Response{Object: o}).ToWhoisStyleResponse())
	})
	add("dump-shared", func(_ string, sh *shared) string { return dump(sh.obj) })
	add("notes-shared", func(_ string, sh *shared) string {
		d := sh.obj.(*rdap.Domain)
		s := ""
		fields := d.DecodeData.Fields()
		sort.Strings(fields)
		for _, k := range fields {
			s += fmt.Sprint(k, d.DecodeData.Notes(k), dump(d.DecodeData.Value(k)))
		}
		return s
	})
	card := func(v *rdap.VCard) string {
		return strings.Join([]string{v.String(), v.Name(), v.POBox(), v.ExtendedAddress(), v.StreetAddress(), v.Locality(), v.Region(), v.PostalCode(), v.Country(), v.Tel(), v.Fax(), v.Email(), v.Org(),
			dump(v.Get("tel")), dump(v.GetFirst("x-nested").Values())}, "|")
	}
	add("vcard-shared", func(_ string, sh *shared) string { return card(sh.vc) })
	for _, tag := range []string{"71", "72"} {
		add("vcard-"+tag, func(string, *shared) string {
			v, err := rdap.NewVCard([]byte(vcard(tag)))
			if err != nil {
				return err.Error()
			}
			return card(v)
		})
	}
	for _, q := range []string{"example.com", "1.2.3.4", "2001:db8::/32", "AS123", "http://x.test/domain/a.b", "ABC-FRNIC", "ns1.example.", "10.0.0.0/8", "b\u00fccher %1.example", "a/b?c#d.cz", "H \u00e9-FRNIC"} {
		add("auto-"+q, func(string, *shared) string {
			r := rdap.NewAutoRequest(q)
			if r.Server == nil {
				r = r.WithServer(mustURL("http://s.test/a/?z=1#f"))
			}
			return fmt.Sprint(r.Type, r.Query, r.URL())
		})
	}
	add("request-shared-url", func(_ string, sh *shared) string {
		return fmt.Sprint(sh.req.URL(), sh.req.WithServer(mustURL("http://t.test")).URL(), sh.req.WithContext(context.Background()).URL())
	})
	ask := func(reg bootstrap.Registry, qs ...string) string {
		s := ""
		for _, q := range qs {
			a, err := reg.Lookup(&bootstrap.Question{Query: q})
			if err != nil {
				s += q + " " + err.Error() + "\n"
				continue
			}
			s += answerString(a) + "\n"
		}
		return s
	}
	add("registry-shared-net", func(_ string, sh *shared) string {
		return ask(sh.reg, "192.0.2.1", "192.1.0.0", "10.2.3.4/16", "11.0.0.0", "x")
	})
	add("registry-shared-dns", func(_ string, sh *shared) string { return ask(sh.dns, "a.example.com", "A.COM", "x.org", "cz", "") })
	add("registry-shared-asn", func(_ string, sh *shared) string { return ask(sh.asn, "AS5", "120", "250", "400", "zz") })
	for _, v := range []string{"a", "b"} {
		add("registry-own-"+v, func(string, *shared) string {
			s := ""
			if r, err := bootstrap.NewNetRegistry([]byte(regDoc("ipv6.json", v)), 6); err == nil {
				s += ask(r, "2001:db8::1", "2001:db8:1::/64", "::1") + dump(r.File())
			}
			if r, err := bootstrap.NewServiceProviderRegistry([]byte(regDoc("object-tags.json", v))); err == nil {
				s += ask(r, "X-FRNIC", "Y-ABA", "nope") + dump(r.File())
			}
			if r, err := bootstrap.NewASNRegistry([]byte(regDoc("asn.json", v))); err == nil {
				s += ask(r, "as101", "7") + dump(r.File())
			}
			if r, err := bootstrap.NewDNSRegistry([]byte(regDoc("dns.json", v))); err == nil {
				s += ask(r, "x.net", "example.com") + dump(r.File())
			}
			return s
		})
	}
	// bootstrap clients
	types := []bootstrap.RegistryType{bootstrap.DNS, bootstrap.ASN, bootstrap.IPv4, bootstrap.IPv6, bootstrap.ServiceProvider}
	qs := []string{"www.example.com", "AS120", "192.0.2.7", "2001:db8:1::5", "Q-FRNIC"}
	lookups := func(c *bootstrap.Client) string {
		s := ""
		for k, t := range types {
			a, err := c.Lookup(&bootstrap.Question{RegistryType: t, Query: qs[k]})
			if err != nil {
				s += err.Error() + "\n"
				continue
			}
			s += answerString(a) + "\n"
		}
		if d := c.DNS(); d != nil {
			s += dump(d.File().Entries)
		}
		return s
	}
	for _, base := range []string{"", "http://bs1.test/x", "http://bs2.test/", "http://bs1.test/missing/"} {
		add("bootstrap-memory-"+base, func(string, *shared) string {
			c := &bootstrap.Client{HTTP: &http.Client{Transport: &stub{}}}
			if base != "" {
				c.BaseURL = mustURL(base)
			}
			return lookups(c) + lookups(c)
		})
		add("bootstrap-disk-"+base, func(dir string, _ *shared) string {
			dc := cache.NewDiskCache()
			dc.Dir = dir
			c := &bootstrap.Client{HTTP: &http.Client{Transport: &stub{}}, Cache: dc}
			if base != "" {
				c.BaseURL = mustURL(base)
			}
			s := lookups(c)
			dc2 := cache.NewDiskCache()
			dc2.Dir = dir
			c2 := &bootstrap.Client{HTTP: &http.Client{Transport: &stub{}}, Cache: dc2, BaseURL: c.BaseURL}
			return s + lookups(c2)
		})
	}
	add("bootstrap-defaults", func(string, *shared) string { return lookups(&bootstrap.Client{}) })
	add("memory-cache", func(string, *shared) string {
		m := cache.NewMemoryCache()
		m.SetTimeout(time.Hour)
		s := fmt.Sprint(m.State("a"))
		b := []byte("one")
		s += fmt.Sprint(m.Save("a", b))
		b[0] = 'x'
		m.Save("b", b)
		x, err := m.Load("a")
		y, err2 := m.Load("b")
		_, err3 := m.Load("c")
		return fmt.Sprintf("%s %s %v %s %v %v %v", s, x, err, y, err2, err3, m.State("a"))
	})
	add("disk-cache", func(dir string, _ *shared) string {
		d := cache.NewDiskCache()
		d.Dir = filepath.Join(dir, "sub")
		s := fmt.Sprint(d.State("a"))
		d.Save("a", []byte("one"))
		d.Save("b", []byte("two"))
		x, err := d.Load("a")
		y, err2 := d.Load("b")
		es, _ := os.ReadDir(d.Dir)
		return fmt.Sprintf("%s %s %v %s %v %v %d files", s, x, err, y, err2, d.State("a"), len(es))
	})
	// RDAP clients
	rc := func() *rdap.Client {
		return &rdap.Client{HTTP: &http.Client{Transport: &stub{}}, Bootstrap: &bootstrap.Client{HTTP: &http.Client{Transport: &stub{}}, BaseURL: mustURL("http://bs1.test/x/")}}
	}
	add("do-domain-failover", func(string, *shared) string {
		return respString(rc().Do(&rdap.Request{Type: rdap.DomainRequest, Query: "a.com"}))
	})
	add("do-verbose", func(string, *shared) string {
		var b strings.Builder
		c := rc()
		c.Verbose = func(t string) { yield(); b.WriteString(times.ReplaceAllString(t, "T") + "\n") }
		c.UserAgent = "agent-x"
		s := respString(c.Do(&rdap.Request{Type: rdap.IPRequest, Query: "192.0.2.0/25"}))
		return s + b.String()
	})
	for _, q := range []struct {
		t rdap.RequestType
		q string
	}{{rdap.AutnumRequest, "120"}, {rdap.EntityRequest, "nosuch-FRNIC"}, {rdap.DomainRequest, "nothing.org"}, {rdap.HelpRequest, ""}, {rdap.NameserverRequest, "ns1.example.cz"}, {rdap.DomainRequest, "x y/\u00fc.cz"}, {rdap.DomainRequest, "100%.cz"}, {rdap.EntityRequest, "a b\u00e9-FRNIC"}} {
		add(fmt.Sprintf("do-%s-%s", q.t, q.q), func(string, *shared) string {
			return respString(rc().Do(&rdap.Request{Type: q.t, Query: q.q}))
		})
	}
	for _, h := range []string{"http://srv.test/base/", "http://refuse.test", "http://down.test/x?y=1"} {
		add("do-at-"+h, func(string, *shared) string {
			r := rdap.NewRequest(rdap.DomainSearchRequest, "ex*")
			return respString(rc().Do(r.WithServer(mustURL(h))))
		})
	}
	add("do-shared-request", func(_ string, sh *shared) string { return respString(rc().Do(sh.req)) })
	add("quick", func(string, *shared) string {
		c := rc()
		d, err := c.QueryDomain("q.cz")
		a, err2 := c.QueryAutnum("AS7")
		n, err3 := c.QueryIP("192.0.2.9")
		return errString(err) + dump(d) + errString(err2) + dump(a) + errString(err3) + dump(n)
	})
	add("quick-notfound", func(string, *shared) string {
		d, err := rc().QueryDomain("nosuch.cz")
		return errString(err) + dump(d)
	})
	add("cancelled", func(string, *shared) string {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		_, err := rc().Do((&rdap.Request{Type: rdap.DomainRequest, Query: "x.cz", Server: mustURL("http://srv.test")}).WithContext(ctx))
		return errString(err)
	})
	add("do-defaults", func(string, *shared) string {
		c := &rdap.Client{}
		return respString(c.Do(&rdap.Request{Type: rdap.DomainRequest, Query: "d.cz"}))
	})
	add("do-defaults-badtls", func(string, *shared) string {
		c := &rdap.Client{}
		_, err := c.Do((&rdap.Request{Type: rdap.DomainRequest, Query: "d.cz", Server: mustURL("https://bad.test/")}))
		return errString(err)
	})
	add("do-defaults-goodtls", func(string, *shared) string {
		c := &rdap.Client{}
		return respString(c.Do((&rdap.Request{Type: rdap.AutnumRequest, Query: "5", Server: mustURL("https://tls.test/")})))
	})
	// the command line
	cli := func(key string, opts rdap.CLIOptions, args ...string) {
		add("cli-"+key, func(dir string, _ *shared) string {
			a := append([]string(nil), args...)
			for i := range a {
				a[i] = strings.ReplaceAll(a[i], "$D", dir)
				a[i] = strings.ReplaceAll(a[i], "$C", certDir)
			}
			return strings.ReplaceAll(cliRun(opts, a...), dir, "$D")
		})
	}
	no := rdap.CLIOptions{}
	cli("text", no, "--cache-dir=", "--bs-url=http://bs1.test/", "a.com")
	cli("raw", no, "--cache-dir=", "--bs-url=http://bs2.test/", "-r", "192.0.2.1")
	cli("json", no, "--cache-dir=$D", "-j", "AS120")
	cli("whois", no, "--cache-dir=", "-s", "http://srv.test", "-w", "-t", "domain", "w.com")
	cli("verbose", no, "--cache-dir=$D", "-v", "-T", "20", "2001:db8::1")
	cli("insecure", no, "--cache-dir=", "-k", "-s", "https://bad.test", "-r", "b.com")
	cli("secure-bad", no, "--cache-dir=", "-s", "https://bad.test", "-r", "b.com")
	cli("secure-good", no, "--cache-dir=", "-s", "https://good.test", "-r", "b.com")
	cli("cert1", no, "--cache-dir=", "-v", "-s", "https://good.test", "-C", "$C/client1.pem", "-K", "$C/client1.key", "-j", "c.com")
	cli("cert2", no, "--cache-dir=", "-s", "https://good.test", "-C", "$C/client2.pem", "-K", "$C/client2.key", "-j", "c.com")
	cli("notfound", no, "--cache-dir=", "-s", "http://srv.test", "nosuch.com")
	cli("refused", no, "--cache-dir=", "-s", "http://refuse.test", "x.com")
	cli("usage", no, "--bogus")
	cli("nothing", no)
	cli("version", no, "--version")
	cli("help", no, "--help")
	cli("badtype", no, "-t", "nope", "x")
	cli("search", no, "--cache-dir=", "-s", "http://srv.test", "-t", "domain-search", "exam*")
	cli("sandbox-p12", rdap.CLIOptions{Sandbox: true}, "--cache-dir=", "--p12=DigiCert_RDAP_Pilot_Client_Certificate.p12:wrong", "x.com")
	cli("sandbox-p12-exp", no, "--exp=sandbox", "--cache-dir=", "--p12=DigiCert_RDAP_Pilot_Client_Certificate_Revoked.p12:wrong", "x.com")
	cli("sandbox-hostile", rdap.CLIOptions{Sandbox: true}, "--cache-dir=", "--p12=/etc/passwd", "x.com")
	cli("sandbox-query", rdap.CLIOptions{Sandbox: true}, "--cache-dir=", "-s", "http://srv.test", "-r", "s.com")
	cli("exp", no, "--cache-dir=", "--exp=test_rdap_net", "-s", "http://srv.test", "-r", "s.com")
	cli("exp-bad", no, "--exp=zzz", "s.com")
	add("sandbox-load", func(string, *shared) string {
		b, err := sandbox.LoadFile("DigiCert_RDAP_Pilot_Client_Certificate_Expired.p12")
		_, err2 := sandbox.LoadFile("../x")
		return fmt.Sprint(len(b), err, err2, sandbox.IsFileInSandbox("DigiCert_RDAP_Pilot_Client_Certificate.p12"), sandbox.IsFileInSandbox("x"))
	})
	return l
}

var _ = net.IPv4len

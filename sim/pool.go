package main

import (
	"fmt"
	"net/netip"
	"strconv"
	"strings"
)

// pool holds the registry keys and the query texts of one run. Documents and
// queries draw from the same pool, so that they meet.
type pool struct {
	keys, qs map[string][]string
}

func newPool(st *Stream) *pool {
	p := &pool{map[string][]string{}, map[string][]string{}}
	for r, l := range universe {
		p.keys[r] = append([]string(nil), l...)
	}
	for r, l := range queries {
		p.qs[r] = append([]string(nil), l...)
	}
	if !st.P(600) {
		return p
	}
	p.genDNS(st)
	p.genNet(st, "ip4")
	p.genNet(st, "ip6")
	p.genASN(st)
	p.genTag(st)
	return p
}

func (p *pool) add(reg, key string) bool {
	if indexOf(p.keys[reg], key) >= 0 {
		return false
	}
	p.keys[reg] = append(p.keys[reg], key)
	return true
}

func (p *pool) ask(reg string, q ...string) { p.qs[reg] = append(p.qs[reg], q...) }

var labels = []string{"a", "b", "com", "co", "uk", "x-1", "xn--p1ai", "0a", "example", "ab", "c", "www", "arpa"}

func (p *pool) genDNS(st *Stream) {
	name := func(n int) string {
		l := make([]string, n)
		for i := range l {
			l[i] = labels[st.N(len(labels))]
		}
		return strings.Join(l, ".")
	}
	for i := 0; i < 12; i++ {
		k := name(1 + st.N(4))
		p.add("dns", k)
		switch st.N(7) {
		case 6:
			p.ask("dns", "www."+k)
		case 0:
			p.ask("dns", k)
		case 1:
			p.ask("dns", "a"+k) // not below k
		case 2:
			p.ask("dns", strings.ToUpper(name(1)+"."+k))
		case 3:
			p.ask("dns", name(1+st.N(2))+"."+k+".")
		case 4:
			p.ask("dns", name(1)+"."+k)
		case 5:
			if _, up, ok := strings.Cut(k, "."); ok {
				p.ask("dns", up)
			}
		}
	}
}

func (p *pool) genNet(st *Stream, reg string) {
	seen := map[netip.Prefix]bool{}
	for _, k := range p.keys[reg] {
		seen[netip.MustParsePrefix(k).Masked()] = true
	}
	bits := 32
	base := netip.MustParsePrefix([]string{"100.0.0.0/6", "192.0.0.0/7", "10.0.0.0/8", "128.0.0.0/1"}[st.N(4)])
	if reg == "ip6" {
		bits = 128
		base = netip.MustParsePrefix([]string{"2001:db8::/32", "2400::/6", "8000::/1", "2a00::/11"}[st.N(4)])
	}
	nets := []netip.Prefix{base}
	for i := 0; i < 14; i++ {
		par := nets[st.N(len(nets))]
		n := par.Bits() + 1 + st.N(min(bits-par.Bits(), 12)+1)
		if n > bits {
			continue
		}
		b := par.Addr().AsSlice()
		for j := par.Bits(); j < n; j++ {
			if st.N(2) == 1 {
				b[j/8] |= 0x80 >> (j % 8)
			} else {
				b[j/8] &^= 0x80 >> (j % 8)
			}
		}
		a, _ := netip.AddrFromSlice(b)
		x := netip.PrefixFrom(a, n).Masked()
		if seen[x] {
			continue
		}
		seen[x] = true
		nets = append(nets, x)
		p.add(reg, x.String())
		first, last := x.Addr(), lastAddr(x)
		switch st.N(7) {
		case 0:
			p.ask(reg, first.String())
		case 1:
			p.ask(reg, last.String())
		case 2:
			if y := first.Prev(); y.IsValid() {
				p.ask(reg, y.String())
			}
		case 3:
			if y := last.Next(); y.IsValid() {
				p.ask(reg, y.String())
			}
		case 4:
			p.ask(reg, x.String())
		case 5:
			p.ask(reg, netip.PrefixFrom(first, n-1).Masked().String())
		case 6:
			if n < bits {
				p.ask(reg, netip.PrefixFrom(last, n+1+st.N(bits-n)).Masked().String())
			}
		}
	}
}

func lastAddr(p netip.Prefix) netip.Addr {
	b := p.Addr().AsSlice()
	for j := p.Bits(); j < len(b)*8; j++ {
		b[j/8] |= 0x80 >> (j % 8)
	}
	a, _ := netip.AddrFromSlice(b)
	return a
}

func (p *pool) genASN(st *Stream) {
	cur := uint64(100000)
	for i := 0; i < 12; i++ {
		lo := cur + []uint64{1, 2, 10, 1000}[st.N(4)]
		hi := lo + []uint64{0, 1, 9, 65535, 20000000}[st.N(5)]
		cur = hi
		k := fmt.Sprintf("%d-%d", lo, hi)
		switch {
		case lo == hi && st.N(2) == 1:
			k = fmt.Sprint(lo)
		case st.P(80):
			k = fmt.Sprintf("%d-%d", hi, lo)
		}
		p.add("asn", k)
		q := []uint64{lo, hi, lo - 1, hi + 1, (lo + hi) / 2}[st.N(5)]
		p.ask("asn", []string{"", "AS", "as"}[st.N(3)]+strconv.FormatUint(q, 10))
	}
}

func (p *pool) genTag(st *Stream) {
	for i := 0; i < 6; i++ {
		k := fmt.Sprintf("T%c%d", 'A'+st.N(3), st.N(4))
		p.add("tag", k)
		p.ask("tag", fmt.Sprintf("H%d-%s", i, k))
	}
	p.ask("tag", "H-ARIN-X1", "ARIN-X", "-ARIN", "H-arin", "H~ARIN", "H_X1", "H--"+p.keys["tag"][0], "H-"+p.keys["tag"][1]+"~"+p.keys["tag"][0])
}

// weird texts need escaping in URLs.
var weird = map[string][]string{
	"dns": {"ex ample.com", "b\u00fccher.example.com", "a%2Fb.com", "a?b=c.net", "a#b.co.uk", "x/y.com", "a;b,c.com", "$a&b+c:d=e@f.com", "\"<>\\^`{|}.com", "a\tb.com"},
	"tag": {"H 1-ARIN", "a/b-VRSN", "\u00e9%41-RIPE", "q?x#y-X1", "*()!'-ARIN", "~._-VRSN", "ARIN", "VRSN", "ARIN-", "X1", "RIPE"},
}

// escPath is the reference model of escaping a query in a URL path.
func escPath(x string) string {
	var b strings.Builder
	for i := 0; i < len(x); i++ {
		c := x[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-_.~$&+:=@", c) >= 0 {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

// junk keys are listed in documents, but match nothing.
var junk = map[string][]string{
	"dns": {"UPPER.example", "trailing.dot.", "*.wild"},
	"ip4": {"10.0.0.0/33", "x", "2001:db8::/32", "10.0.0.0", "", "300.0.0.0/8", "2001::/16", "::/0", "ff00::/8", "2001:db8::/24"},
	"ip6": {"2001:db8::/129", "x", "10.0.0.0/8", "2001:db8::", "", "0.0.0.0/0", "255.0.0.0/32", "32.1.0.0/16"},
	"asn": {"x-y", "1-2-3", "AS5", "", "4294967296-4294967299", "-7", "7-", "1 - 9"},
	"tag": {"lower", "TWO-PARTS", ""},
}

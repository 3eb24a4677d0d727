package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/url"
	"slices"
	"sort"
	"strings"
)

type obj = map[string]any

// builder makes RDAP objects; every string in them is unique to the reply.
type builder struct {
	st   *Stream
	id   int
	n    int
	evil bool // texts with line breaks and the like
}

// tok makes a string which identifies the reply and the kind of field.
func (b *builder) tok(name string) string { return fmt.Sprintf("%s.rid%d.tok", name, b.id) }

// evils are texts which would forge lines if they were printed as they are.
var evils = []string{"\nforged: line", "\r\nforged: line", "\rforged: line", "\x00", "\n", "\r", "\n\n  forged: line\n", "x\x00y\nforged: z",
	"\u2028forged", "\x1b[2K\r", "\tforged", "\u0085forged", "%n%s\nforged", "\\nforged", strings.Repeat("\n", 40) + "forged", "\u00e9\u4e16\n", "  "}

// uniq makes a token which also differs from the others of its kind.
func (b *builder) uniq(name string) string {
	b.n++
	s := fmt.Sprintf("%sx%d.rid%d.tok", name, b.n, b.id)
	if b.evil && b.st.P(250) {
		e := evils[b.st.N(len(evils))]
		switch b.st.N(4) {
		case 0, 1:
			s += e
		case 2:
			s = s[:4] + e + s[4:]
		case 3:
			s = e + s
		}
	}
	return s
}

// ext adds members which are not part of RDAP.
func (b *builder) ext(o obj) obj {
	if b.st.P(2) { // very many
		for i := 0; i < 150; i++ {
			o[fmt.Sprintf("sim_%d", i)] = i
		}
	}
	for b.st.P(60) {
		k := b.uniq("extn")
		if !b.evil {
			k = []string{"sim_a", "simB", "Handle", "LDHName", "x-y", "lunarNIC_beforeOneSmallStep", "remark", "vcard", "_x", "", "handle ", "x:y", "HANDLE", "entitys"}[b.st.N(14)]
		} else if !strings.HasPrefix(k, "e") { // the name of an unknown member starts a line
			k = "e" + k
		}
		o[k] = b.extValue(3)
	}
	return o
}

func (b *builder) extValue(depth int) any {
	switch b.st.N(9) {
	case 0:
		return b.uniq("extv")
	case 1:
		return json.Number([]string{"0", "-1", "1.50", "1E+2", "12345678901234567890", "1e-7", "100000000000000000000000"}[b.st.N(7)])
	case 2:
		return b.st.N(2) == 1
	case 3:
		return nil
	case 4:
		return ""
	case 5:
		return []any{}
	case 6:
		return obj{}
	}
	if depth == 0 {
		return "a<b>&c %d %s \u2028 \u00e9"
	}
	if b.st.N(2) == 0 {
		return []any{b.extValue(depth - 1), b.extValue(depth - 1)}
	}
	return obj{"k1": b.extValue(depth - 1), "k2": b.extValue(depth - 1)}
}

func (b *builder) link() obj {
	l := obj{"href": "http://direct.test/" + b.uniq("href"), "rel": "self", "value": "http://direct.test/v?a=1&b=%20"}
	if b.st.N(2) == 1 {
		l["type"] = "application/rdap+json"
		l["title"] = b.uniq("ltitle")
		l["media"] = "screen"
		l["hreflang"] = []any{"en", b.uniq("lang")}
	}
	return b.ext(l)
}

func (b *builder) event(action string) obj {
	if b.st.P(40) {
		action = []string{"Registration", "last update of RDAP database", "registration ", "registrar expiration", "reregistration", "last changed by registrar", "soft expiration", "Last Changed"}[b.st.N(8)]
	}
	e := obj{"eventAction": action, "eventDate": b.uniq("date")}
	if b.st.P(300) {
		e["eventActor"] = b.uniq("actor")
	}
	if b.st.P(150) {
		e["links"] = []any{b.link()}
	}
	return b.ext(e)
}

func (b *builder) remark() obj {
	r := obj{"title": b.uniq("rtitle"), "description": []any{b.uniq("rdesc"), b.uniq("rdesc")}}
	if b.st.P(300) {
		r["type"] = b.uniq("rtype")
		r["links"] = []any{b.link()}
	}
	switch b.st.W(12, 1, 1, 1) {
	case 1:
		delete(r, "title")
	case 2:
		delete(r, "description")
	case 3:
		r["description"] = b.some(func() any { return b.uniq("rdesc") })
		r["title"] = []string{"", " ", b.uniq("rtitle")}[b.st.N(3)]
	}
	return b.ext(r)
}

func (b *builder) pubid(typ string) obj {
	if b.st.P(60) {
		typ = []string{"iana registrar id", "IANA Registrar ID ", "IANA ID", "IANA Registrar IDs", "Old IANA Registrar ID"}[b.st.N(5)]
	}
	return b.ext(obj{"type": typ, "identifier": b.uniq("pubid")})
}

// common adds members which all objects can have.
func (b *builder) common(o obj, depth int) obj {
	if b.st.P(200) {
		o["status"] = b.some(func() any { return b.uniq("status") })
		o["port43"] = b.uniq("port43")
		o["remarks"] = []any{b.remark()}
	}
	if b.st.P(120) {
		o["links"] = b.some(func() any { return b.link() })
		o["lang"] = b.uniq("lang")
	}
	if b.st.P(100) {
		o["events"] = []any{b.event("registration"), b.event(b.uniq("action"))}
	}
	if b.st.P(60) {
		o["notices"] = b.some(func() any { return b.remark() })
		o["rdapConformance"] = b.some(func() any { return b.uniq("conf") })
	}
	if depth > 0 && b.st.P(120) {
		o["entities"] = []any{b.entity(depth-1, "abuse", "technical")}
	}
	return b.ext(o)
}

func prop(name string, typ string, val any, params ...any) []any {
	p := obj{}
	for i := 0; i+1 < len(params); i += 2 {
		p[params[i].(string)] = params[i+1]
	}
	return []any{name, p, typ, val}
}

// vcard makes a jCard.
func (b *builder) vcard(full bool) []any {
	ps := []any{prop("version", "text", "4.0"), prop("fn", "text", b.uniq("fn"))}
	if full {
		for i := b.st.W(8, 3, 1); i >= 0; i-- {
			switch b.st.N(7) {
			case 4:
				ps = append(ps, append(prop("adr", "text", []any{b.uniq("pobox"), b.uniq("ext"), b.uniq("street")}), []any{b.uniq("pobox2"), b.uniq("ext2")}, b.uniq("three")))
			case 0:
				ps = append(ps, prop("adr", "text", []any{b.uniq("pobox"), b.uniq("ext"), b.uniq("street"), b.uniq("city"), b.uniq("region"), b.uniq("zip"), b.uniq("country")}))
			case 1:
				ps = append(ps, prop("adr", "text", []any{"", "", []any{b.uniq("street"), b.uniq("street")}, b.uniq("city"), "", b.uniq("zip"), ""}, "type", "home"))
			case 2:
				ps = append(ps, prop("adr", "text", []any{b.uniq("pobox"), nil, json.Number("12.50"), true, []any{}}))
			case 3:
				ps = append(ps, prop("adr", "text", b.uniq("adr")))
			}
		}
		if b.st.N(2) == 1 {
			ps = append(ps, prop("tel", "text", b.uniq("fax"), "type", []any{"work", "fax"}))
		}
		if b.st.N(4) == 1 {
			ps = append(ps, prop("tel", "uri", b.uniq("cell"), "type", "cell"), prop("tel", "text", []any{}, "type", []any{"voice", "fax"}))
		}
		if b.st.N(2) == 1 {
			ps = append(ps, prop("tel", "uri", "tel:"+b.uniq("tel"), "type", "voice", "pref", "1"))
			ps = append(ps, prop("tel", "text", b.uniq("tel")))
		}
		if b.st.N(2) == 1 {
			ps = append(ps, prop("email", "text", b.uniq("email")), prop("email", "text", b.uniq("email")))
		}
		if b.st.N(2) == 1 {
			ps = append(ps, prop("org", "text", b.uniq("org")))
		}
		if b.st.N(3) == 1 {
			ps = append(ps, append(prop("n", "text", b.uniq("n")), b.uniq("n"), []any{b.uniq("n"), json.Number("-0.5")}))
			ps = append(ps, prop("mixed", "text", []any{b.uniq("mix"), []any{true, nil, []any{json.Number("1e21"), b.uniq("mix")}}}, "group", "g", "x", []any{"a", "b"}))
			ps = append(ps, prop("fn", "text", b.uniq("fn")), prop("org", "text", []any{b.uniq("org"), b.uniq("org")}))
		}
	}
	if b.st.P(120) {
		x := []any{prop([]string{"FN", "Fn", "Tel", "ADR", "EMAIL", "Org"}[b.st.N(6)], "text", b.uniq("upper")), append(prop("five", "text", b.uniq("five")), nil),
			append(prop("six", "text", nil), nil, b.uniq("six")), prop("empty", "text", "", "type", []any{}, "pref", "", "x", []any{"", "y"}), prop("nil", "text", nil),
			prop("tel", "text", b.uniq("commas"), "type", []string{"voice,fax", "fax,work", "home;voice", " fax", "text-fax"}[b.st.N(5)], "x", "a, b"), prop("adr", "text", b.uniq("label"), "label", "one, two; three\\nfour")}[b.st.N(7)]
		i := b.st.N(len(ps) + 1)
		ps = append(ps[:i:i], append([]any{x}, ps[i:]...)...)
	}
	if b.st.P(100) {
		i := b.st.N(len(ps))
		ps = append(append([]any{}, ps[i:]...), ps[:i]...)
	}
	return []any{"vcard", ps}
}

// some gives a few values, sometimes none or the same twice.
func (b *builder) some(f func() any) []any {
	l := []any{}
	for i := b.st.W(2, 10, 6, 3, 1); i > 0; i-- {
		l = append(l, f())
	}
	if len(l) > 0 && b.st.P(80) {
		l = append(l, l[0])
	}
	return l
}

// num is a number below 2^bits.
func (b *builder) num(bits int) any {
	max := uint64(1)<<bits - 1
	switch b.st.N(6) {
	case 0:
		return 0
	case 1:
		return max
	case 2:
		return max / 2
	case 3:
		return max/2 + 1
	}
	return uint64(b.st.N(1<<30)) & max
}

func (b *builder) entity(depth int, roles ...any) obj {
	if b.st.P(120) {
		for i := b.st.W(4, 2, 1); i >= 0; i-- {
			x := any([]string{"sponsor", "reseller", "noc", "notifications", "registrant", "Registrar", "tech", "administrative", "abuse"}[b.st.N(9)])
			if i := b.st.N(len(roles) + 1); i == len(roles) {
				roles = append(roles, x)
			} else {
				roles = append(append(append([]any{}, roles[:i]...), x), roles[i:]...)
			}
		}
	}
	e := obj{"objectClassName": "entity", "handle": b.uniq("handle"), "roles": roles}
	if b.st.P(800) {
		e["vcardArray"] = b.vcard(b.st.N(2) == 1)
	}
	if b.st.P(300) {
		e["publicIds"] = []any{b.pubid("IANA Registrar ID"), b.pubid(b.uniq("ptype"))}
		if b.st.N(3) == 0 {
			e["publicIds"] = append(e["publicIds"].([]any), b.pubid("IANA Registrar ID"))
		}
	}
	if b.st.P(150) {
		e["asEventActor"] = []any{b.event("last changed")}
	}
	if depth > 0 && b.st.P(100) {
		e["networks"] = []any{b.network(depth - 1)}
		e["autnums"] = []any{b.autnum(depth - 1)}
	}
	return b.common(e, depth)
}

func (b *builder) network(depth int) obj {
	return b.common(obj{"objectClassName": "ip network", "handle": b.uniq("handle"), "startAddress": b.uniq("start"), "endAddress": b.uniq("end"), "ipVersion": b.uniq("ipver"),
		"name": b.uniq("name"), "type": b.uniq("type"), "country": b.uniq("cc"), "parentHandle": b.uniq("parent")}, depth)
}

func (b *builder) autnum(depth int) obj {
	return b.common(obj{"objectClassName": "autnum", "handle": b.uniq("handle"), "startAutnum": b.num(32), "endAutnum": b.num(32), "name": b.uniq("name"), "type": b.uniq("type"),
		"country": b.uniq("cc"), "ipVersion": b.uniq("ipver")}, depth)
}

func (b *builder) nameserver(depth int) obj {
	n := obj{"objectClassName": "nameserver", "ldhName": b.uniq("ns")}
	if b.st.P(300) {
		n["handle"] = b.uniq("handle")
		n["unicodeName"] = b.uniq("nsuni")
		n["ipAddresses"] = b.ext(obj{"v4": b.some(func() any { return b.uniq("vfour") }), "v6": b.some(func() any { return b.uniq("vsix") })})
	}
	return b.common(n, depth)
}

func (b *builder) secureDNS() obj {
	ds := obj{"keyTag": 12345 + b.id, "algorithm": 13, "digest": b.uniq("digest"), "digestType": 2}
	if b.st.N(2) == 1 {
		ds["events"], ds["links"] = []any{b.event("registration")}, []any{b.link()}
	}
	key := obj{"flags": 257, "protocol": 3, "algorithm": 255, "publicKey": b.uniq("pubkey")}
	if b.st.N(2) == 1 {
		key["events"], key["links"] = []any{b.event("registration")}, []any{b.link()}
	}
	if b.st.P(400) {
		ds["keyTag"], ds["algorithm"], ds["digestType"] = b.num(16), b.num(8), b.num(8)
		key["flags"], key["protocol"], key["algorithm"] = b.num(16), b.num(8), b.num(8)
	}
	for _, o := range []obj{ds, key} {
		if b.st.P(150) { // an optional member
			delete(o, []string{"keyTag", "algorithm", "digestType", "flags", "protocol", "digest", "publicKey"}[b.st.N(7)])
		}
	}
	s := obj{"zoneSigned": b.st.N(3) > 0, "delegationSigned": b.st.N(2) == 1, "dsData": []any{b.ext(ds)}, "keyData": []any{b.ext(key)}}
	if b.st.N(2) == 1 {
		s["maxSigLife"] = []any{604800, 0, json.Number("9007199254740992")}[b.st.N(3)]
		s["dsData"] = append(s["dsData"].([]any), b.ext(obj{"keyTag": 0, "algorithm": 0, "digest": b.uniq("digest"), "digestType": 255}))
	}
	if b.st.P(150) {
		delete(s, []string{"zoneSigned", "delegationSigned", "dsData", "keyData"}[b.st.N(4)])
	}
	return b.ext(s)
}

func (b *builder) variant() obj {
	return b.ext(obj{"relation": []any{b.uniq("relation"), b.uniq("relation")}, "idnTable": b.uniq("idn"),
		"variantNames": []any{b.ext(obj{"ldhName": b.uniq("dom"), "unicodeName": b.uniq("domuni")}), obj{"ldhName": b.uniq("dom")}}})
}

// rdapObject builds an RDAP response. A Byzantine server may give any field any
// value.
func rdapObject(st *Stream, class string, id int, u *url.URL, byz bool) []byte {
	b := &builder{st: st, id: id}
	b.evil = byz && st.N(2) == 1
	h := fmt.Sprintf("RID-%d", id)
	m := obj{"rdapConformance": []any{"rdap_level_0"}}
	proper := class != "error" && class != "help" && !strings.HasSuffix(class, "search")
	if proper {
		m["objectClassName"] = class
		m["handle"] = h
	}
	rich := st.N(3)
	if byz {
		rich = 1 + st.N(2)
	}
	if rich > 0 && proper {
		n := obj{"title": b.uniq("ntitle"), "description": []any{b.uniq("ndesc"), b.uniq("ndesc")}}
		if st.P(200) {
			n["type"] = b.uniq("ntype")
			n["links"] = []any{b.link()}
		}
		m["notices"] = []any{b.ext(n)}
		m["port43"] = b.uniq("port43")
		m["status"] = []any{b.uniq("status"), b.uniq("status")}
		m["events"] = []any{b.event("registration"), b.event("last changed"), b.event("expiration"), b.event("transfer")}
		es := []any{b.entity(2, "registrar"), b.entity(2, "registrant", "abuse")}
		if st.P(400) {
			es = append(es, b.entity(1, "administrative"), b.entity(1, "technical", "billing"), b.entity(1, "abuse"))
		}
		if st.P(100) {
			es = append(es, b.entity(1, "registrar"), b.entity(1, "administrative"))
		}
		m["entities"] = es
	}
	often := 250
	if byz {
		often = 600
	}
	switch class {
	case "domain":
		m["ldhName"] = b.uniq("dom")
		if rich > 0 {
			m["nameservers"] = []any{b.nameserver(1), b.nameserver(1)}
		}
		if rich > 0 && st.P(often) {
			m["unicodeName"] = b.uniq("domuni")
			m["publicIds"] = []any{b.pubid(b.uniq("ptype"))}
			m["variants"] = []any{b.variant()}
			if st.N(3) == 1 {
				m["variants"] = append(m["variants"].([]any), b.variant())
			}
			m["secureDNS"] = b.secureDNS()
		}
		if rich > 0 && st.P(150) {
			m["network"] = b.network(1)
		}
	case "ip network":
		for k, v := range b.network(1) {
			if m[k] == nil && k != "handle" {
				m[k] = v
			}
		}
	case "autnum":
		m["startAutnum"] = id
		m["name"] = b.uniq("name")
		if rich > 0 {
			m["endAutnum"] = json.Number("4294967295")
			m["type"] = b.uniq("type")
			m["country"] = b.uniq("cc")
			m["ipVersion"] = b.uniq("ipver")
		}
	case "entity":
		for k, v := range b.entity(2, "registrant", b.uniq("role")) {
			if m[k] == nil {
				m[k] = v
			}
		}
	case "nameserver":
		for k, v := range b.nameserver(1) {
			if m[k] == nil {
				m[k] = v
			}
		}
	case "help":
		m["notices"] = []any{obj{"title": h, "description": []any{b.uniq("ndesc")}}}
	case "error":
		code, title, desc := errShape(id)
		m = obj{"errorCode": code}
		if title {
			m["title"] = h
		}
		if desc {
			l := []any{b.tok("err1"), b.tok("err2")}
			for i := st.N(4); i > 0; i-- {
				l = append(l, b.uniq("err"))
			}
			m["description"] = l
		}
		if st.N(3) == 0 {
			m["notices"] = []any{obj{"title": b.uniq("ntitle"), "description": []any{b.uniq("ndesc")}}}
		}
	case "domain search":
		l := []any{obj{"objectClassName": "domain", "handle": h, "ldhName": b.uniq("dom")}}
		for i := st.N(4); i > 0; i-- {
			l = append(l, b.ext(obj{"objectClassName": "domain", "handle": b.uniq("handle"), "ldhName": b.uniq("dom"), "nameservers": []any{b.nameserver(0)}}))
		}
		m = obj{"domainSearchResults": l}
	case "nameserver search":
		l := []any{obj{"objectClassName": "nameserver", "handle": h, "ldhName": b.uniq("ns")}}
		for i := st.N(3); i > 0; i-- {
			l = append(l, b.nameserver(1))
		}
		m = obj{"nameserverSearchResults": l}
	case "entity search":
		l := []any{obj{"objectClassName": "entity", "handle": h}}
		for i := st.N(3); i > 0; i-- {
			l = append(l, b.entity(1, "registrant"))
		}
		m = obj{"entitySearchResults": l}
	}
	if strings.HasSuffix(class, "search") && rich > 0 {
		m["rdapConformance"] = []any{"rdap_level_0", b.uniq("conf")}
		m["notices"] = []any{obj{"title": b.uniq("ntitle"), "description": []any{b.uniq("ndesc")}}}
	}
	if rich == 2 && proper {
		m["remarks"] = []any{b.remark(), obj{"title": b.uniq("rtitle"), "description": []any{strings.Repeat("lorem ipsum ", 40+st.N(400))}}}
	}
	if st.P(300) {
		m["sim_ext"] = obj{"n": json.Number("12345678901234567890"), "f": json.Number("1.50"), "h": "a<b>&c %d %s \u2028 \u00e9", "nil": nil, "e": json.Number("1E+2"), "l": []any{}, "t": b.uniq("extt"), "b": true}
	}
	if proper && st.P(200) {
		m["lang"] = "en"
		m["links"] = []any{b.link()}
	}
	m = b.ext(m)
	for _, k := range sortedKeys(m) {
		if proper || k == "sim_ext" {
			m[k] = vary(st, k, m[k])
		}
	}
	if byz && st.N(3) > 0 {
		mangle(st, m)
	}
	data := marshal(st, m)
	if byz && st.P(60) { // texts which are no proper Unicode
		bad := []string{"\xff", "\xed\xa0\x80", "\\ud800", "\xc3", "\\udc00\\ud800x", "\xf4\x90\x80\x80"}[st.N(6)]
		data = bytes.Replace(data, []byte(".rid"), []byte("."+bad+"rid"), 1+st.N(20))
	}
	return data
}

func sortedKeys(m obj) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// vary changes lists (their order and length) and drops members of inner
// objects, here and there.
func vary(st *Stream, key string, v any) any {
	switch x := v.(type) {
	case obj:
		for _, k := range sortedKeys(x) {
			x[k] = vary(st, k, x[k])
		}
		if len(x) > 0 && st.P(12) {
			ks := sortedKeys(x)
			delete(x, ks[st.N(len(ks))])
		}
	case []any:
		if key == "vcardArray" {
			return v
		}
		l := append([]any{}, x...)
		for i := range l {
			l[i] = vary(st, "", l[i])
		}
		if n := len(l); n > 0 && st.P(40) {
			i := st.N(n)
			switch st.N(4) {
			case 0:
				l = append(append([]any{}, l[i:]...), l[:i]...)
			case 1:
				for a, z := 0, n-1; a < z; a, z = a+1, z-1 {
					l[a], l[z] = l[z], l[a]
				}
			case 2:
				l = append(l[:i], l[i+1:]...)
			case 3:
				l = append(l, l[i])
			}
		}
		return l
	}
	return v
}

// mangle gives a few fields values of another type.
func mangle(st *Stream, m obj) {
	type slot struct {
		m obj
		l []any
		k string
		i int
	}
	var slots []slot
	var walk func(v any)
	walk = func(v any) {
		switch x := v.(type) {
		case obj:
			keys := make([]string, 0, len(x))
			for k := range x {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				slots = append(slots, slot{m: x, k: k})
				switch k {
				case "zoneSigned", "delegationSigned", "maxSigLife", "keyTag", "algorithm", "digestType", "flags", "protocol", "secureDNS", "startAutnum", "errorCode":
					slots = append(slots, slots[len(slots)-1], slots[len(slots)-1], slots[len(slots)-1])
				}
				walk(x[k])
			}
		case []any:
			for i := range x {
				slots = append(slots, slot{l: x, i: i})
				walk(x[i])
			}
		}
	}
	walk(m)
	byName := map[string][]slot{}
	var names []string
	for _, x := range slots {
		if x.m != nil {
			if byName[x.k] == nil {
				names = append(names, x.k)
			}
			byName[x.k] = append(byName[x.k], x)
		}
	}
	if len(names) == 0 {
		names, byName[""] = []string{""}, slots
	}
	vals := []any{nil, 7, -1.5, "text", "", true, false, []any{}, []any{1, "a", nil, obj{}, "b", []any{"c"}}, obj{}, obj{"a": []any{obj{"b": nil}}}, json.Number("99999999999999999999"),
		[]any{"vcard", []any{[]any{}}}, []any{[]any{[]any{}}}, 0, 1.9, -1, 255, 256, 65535, 65536, json.Number("4294967296"), json.Number("18446744073709551616"), json.Number("1e300"),
		"0", "T", "false", "257", "70000", "-3", "18446744073709551615", "0x1F", "010", "1_0", " 7", "+7", "7 ", "1e2", "1.5", []any{[]any{[]any{[]any{"deep"}}}}, []any{obj{"handle": "x", "title": 5}, 3, obj{"name": nil}}, json.Number("-1e300"), "yes", "null"}
	for i := 1 + st.W(4, 3, 2, 1)*st.N(4); i > 0; i-- {
		x := slots[st.N(len(slots))]
		if st.N(2) == 1 { // any name of a member is as likely as any other
			k := names[st.N(len(names))]
			x = byName[k][st.N(len(byName[k]))]
		}
		v := vals[st.N(len(vals))]
		if x.m != nil {
			x.m[x.k] = v
		} else {
			x.l[x.i] = v
		}
	}
	if st.P(100) { // a number out of range, or at its edge
		k := []string{"maxSigLife", "keyTag", "algorithm", "digestType", "flags", "protocol", "startAutnum", "endAutnum"}[st.N(8)]
		big := []any{json.Number("18446744073709551616"), json.Number("1e300"), -1, json.Number("18446744073709551615"), json.Number("36893488147419103232"), json.Number("-0.5"), json.Number("9223372036854775808"), "18446744073709551616", json.Number("13.75"), json.Number("0.5"), json.Number("7.0"), json.Number("1.3e1")}
		if l := byName[k]; len(l) > 0 {
			l[st.N(len(l))].m[k] = big[st.N(len(big))]
		}
	}
	if l := byName["vcardArray"]; len(l) > 0 && st.P(350) {
		x := l[st.N(len(l))]
		if c, ok := x.m["vcardArray"].([]any); ok {
			x.m["vcardArray"] = mangleCard(st, c)
		}
	}
	if st.P(120) { // all through one array
		var ls [][]any
		for _, x := range slots {
			if x.l != nil && len(x.l) > 1 && x.i == 0 {
				ls = append(ls, x.l)
			}
		}
		if len(ls) > 0 {
			l := ls[st.N(len(ls))]
			for i := range l {
				if st.N(3) > 0 {
					l[i] = vals[st.N(len(vals))]
				}
			}
		}
	}
	if st.P(150) { // a member of the response itself
		keys := make([]string, 0, len(m))
		for k := range m {
			if k != "objectClassName" {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		if len(keys) > 0 {
			m[keys[st.N(len(keys))]] = []any{nil, []any{}, obj{}, "", vals[st.N(len(vals))]}[st.N(5)]
		}
	}
	if st.P(30) {
		m["errorCode"] = vals[st.N(len(vals))]
	}
	if st.P(30) {
		delete(m, "objectClassName")
	} else if st.P(20) {
		m["objectClassName"] = []any{nil, 5, "", "domain ", []any{"domain"}, true}[st.N(6)]
	}
}

// mangleCard breaks a rule of jCard, or only nearly so.
func mangleCard(st *Stream, c []any) []any {
	if len(c) != 2 {
		return c
	}
	ps, _ := c[1].([]any)
	odd := []any{[]any{}, []any{"x"}, []any{"x", obj{}, "text"}, []any{"x", obj{}, 5, "v"}, []any{5, obj{}, "text", "v"}, []any{"x", []any{}, "text", "v"}, "x", nil, obj{}, 7,
		[]any{"x", obj{}, "text", obj{"a": 1}}, []any{"x", obj{}, "text", []any{[]any{[]any{[]any{"deep"}}}}}, []any{"x", obj{}, "text", []any{[]any{[]any{"deep"}}}}, []any{"x", obj{}, "text", "v", obj{}},
		[]any{"x", nil, "text", "v"}, []any{"x", obj{}, nil, "v"}, []any{nil, obj{}, "text", "v"}, []any{"", obj{}, "", ""}, []any{"x", obj{"p": 5, "q": nil, "r": []any{1, "s", nil, []any{"t"}}, "u": obj{}}, "text", "v"},
		[]any{"x", obj{}, "text", nil}, []any{"x", obj{}, "text", "v", nil}, []any{"x", obj{}, "text", nil, nil, nil}, []any{"x", obj{}, "text", []any{}}, []any{"x", obj{}, "text", []any{"a", obj{}}}}
	switch st.N(8) {
	case 0:
		return append(c[:2:2], []any{nil, []any{}, "x", obj{}}[st.N(4)])
	case 1:
		return []any{[]any{"vCard", "VCARD", "", nil, "jcard", 1, []any{"vcard"}}[st.N(7)], ps}
	case 2:
		return []any{"vcard", [][]any{nil, {}, {nil}, {[]any{}}}[st.N(4)]}
	}
	for n := st.W(3, 1, 1, 1) * 4; n > 0; n-- { // a long card
		ps = append(ps, prop(fmt.Sprintf("x-%d", n), "text", fmt.Sprint(n)))
	}
	for n := 1 + st.N(2); n > 0; n-- {
		i := st.N(len(ps) + 1)
		ps = append(ps[:i:i], append([]any{odd[st.N(len(odd))]}, ps[i:]...)...)
	}
	return []any{"vcard", ps}
}

func marshal(st *Stream, m obj) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(st.N(2) == 1)
	if st.N(2) == 1 {
		e.SetIndent("", "   ")
	}
	if err := e.Encode(m); err != nil {
		panic(err)
	}
	b.Truncate(b.Len() - 1) // no final newline: every byte counts
	return b.Bytes()
}

// wantWhois is the reference model of whois output: the lines, sorted by key.
func wantWhois(d *sdoc) []string {
	if d.kind != "Domain" {
		return nil
	}
	var l []string
	add := func(k, v string) {
		if v != "" {
			l = append(l, k+": "+whoisSafe.Replace(v))
		}
	}
	add("Domain Name", d.str("ldhName"))
	add("Handle", d.str("handle"))
	add("WHOIS Server", d.str("port43"))
	for _, e := range d.docs("events") {
		if k := map[string]string{"last changed": "Updated Date", "registration": "Creation Date", "expiration": "Expiration Date"}[e.str("eventAction")]; k != "" {
			add(k, e.str("eventDate"))
		}
	}
	for _, s := range d.strs("status") {
		add("Domain Status", s)
	}
	for _, n := range d.docs("nameservers") {
		add("Name Server", n.str("ldhName"))
	}
	first := func(role string) (*sdoc, *scard) {
		for _, e := range d.docs("entities") {
			if slices.Contains(e.strs("roles"), role) {
				c, _ := e.known["vcardArray"].(*scard)
				if c == nil {
					c = &scard{}
				}
				return e, c
			}
		}
		return nil, nil
	}
	if e, c := first("registrar"); e != nil {
		add("Registrar", c.first("fn"))
		for _, x := range e.docs("publicIds") {
			if x.str("type") == "IANA Registrar ID" {
				add("Registrar IANA ID", x.str("identifier"))
			}
		}
	}
	for _, x := range [][2]string{{"registrant", "Registrant"}, {"administrative", "Admin"}, {"technical", "Tech"}, {"abuse", "Abuse"}} {
		e, c := first(x[0])
		if e == nil {
			continue
		}
		add(x[1]+" Name", c.first("fn"))
		for i, k := range []string{"PO Box", "Extended Address", "Street", "Locality", "", "Post Code", "Country"} {
			if k != "" {
				add(x[1]+" "+k, c.adr(i))
			}
		}
		add(x[1]+" Tel", c.tel("voice"))
		add(x[1]+" Fax", c.tel("fax"))
		add(x[1]+" Email", c.first("email"))
	}
	sortKeys(l)
	return l
}

// sortKeys sorts lines by their keys and keeps the order of the values of one key.
func sortKeys(l []string) {
	sort.SliceStable(l, func(i, j int) bool {
		a, _, _ := strings.Cut(l[i], ":")
		b, _, _ := strings.Cut(l[j], ":")
		return a < b
	})
}

var whoisSafe = strings.NewReplacer("\n", " ", "\r", " ", "\x00", "")

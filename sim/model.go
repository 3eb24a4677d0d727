package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// The reference model of decoding: what is left of an RDAP document, whatever
// its fields hold. It works on the JSON only, without the library's code.

// member describes a member of an RDAP object.
//
// typ is s (string), S (strings), b (bool), 1 2 4 8 (unsigned, in bytes),
// o (object), O (objects) or v (jCard).
type member struct {
	typ         byte
	kind, label string
}

func members(specs ...string) map[string]member {
	m := map[string]member{}
	for _, spec := range specs {
		for _, f := range strings.Split(spec, ";") {
			p := strings.SplitN(f, " ", 3)
			x := member{typ: p[1][0]}
			if x.typ == 'o' || x.typ == 'O' {
				x.kind = p[2]
			} else if len(p) == 3 {
				x.label = p[2]
			}
			m[p[0]] = x
		}
	}
	return m
}

const (
	lang   = "lang s"
	top    = "lang s;rdapConformance S Conformance;notices O Notice"
	common = top + ";objectClassName s;handle s Handle;status S Status;port43 s Port43;remarks O Remark;links O Link;events O Event;entities O Entity"
)

// kinds are the objects of RFC 7483 with the labels of the text output.
var kinds = map[string]map[string]member{
	"Domain":     members(common, "ldhName s Domain Name;unicodeName s Domain Name (Unicode);publicIds O Public ID;variants O Variant;secureDNS o Secure DNS;nameservers O Nameserver;network o IP Network"),
	"Autnum":     members(common, "name s Name;type s Type;ipVersion s IP Version;country s Country;startAutnum 4 StartAutnum;endAutnum 4 EndAutnum"),
	"Nameserver": members(common, "ldhName s Nameserver;unicodeName s Nameserver (Unicode);ipAddresses o IP Addresses"),
	"Entity":     members(common, "publicIds O Public ID;asEventActor O AsEventActor;roles S Role;vcardArray v;networks O IP Network;autnums O Autnum"),
	"IP Network": members(common, "rdapConformance S;startAddress s Start Address;endAddress s End Address;ipVersion s IP Version;name s Name;type s Type;country s Country;parentHandle s ParentHandle"),

	"Help":                      members(top),
	"Error":                     members(top, "errorCode 2 Error Code;title s Title;description S Description"),
	"Domain Search Results":     members(top, "domainSearchResults O Domain"),
	"Nameserver Search Results": members(top, "nameserverSearchResults O Nameserver"),
	"Entity Search Results":     members(top, "entitySearchResults O Entity"),

	"Notice":       members("title s Title;type s Type;description S Description;links O Link"),
	"Remark":       members("title s Title;type s Type;description S Description;links O Link"),
	"Event":        members("eventAction s Action;eventActor s Actor;eventDate s Date;links O Link"),
	"AsEventActor": members("eventAction s Action;eventActor s Actor;eventDate s Date;links O Link"),
	"Link":         members("value s Value;rel s Rel;href s Href;hreflang S HrefLang;title s Title;media s Media;type s Type"),
	"Public ID":    members("type s Type;identifier s Identifier"),
	"Variant":      members(lang, "relation S Relation;idnTable s IDN Table;variantNames O Variant Name"),
	"Variant Name": members(lang, "ldhName s Domain Name;unicodeName s Domain Name (Unicode)"),
	"Secure DNS":   members(lang, "zoneSigned b Zone Signed;delegationSigned b Delegation Signed;maxSigLife 8 Max Signature Life;dsData O DSData;keyData O Key"),
	"DSData":       members(lang, "keyTag 8 Key Tag;algorithm 1 Algorithm;digest s Digest;digestType 1 DigestType;events O Event;links O Link"),
	"Key":          members("flags 2 Flags;protocol 1 Protocol;algorithm 1 Algorithm;publicKey s Public Key;events O Event;links O Link"),
	"IP Addresses": members(lang, "v4 S IPv4;v6 S IPv6"),
}

// classes are the names the simulator uses for the kinds of responses.
var classes = map[string]string{"domain": "Domain", "autnum": "Autnum", "nameserver": "Nameserver", "entity": "Entity", "ip network": "IP Network",
	"help": "Help", "error": "Error", "domain search": "Domain Search Results", "nameserver search": "Nameserver Search Results", "entity search": "Entity Search Results"}

// classify tells what a response is, and whether it is one at all.
func classify(body []byte) (class string, raw obj, ok bool) {
	if len(bytes.TrimSpace(body)) == 0 {
		return
	}
	d := json.NewDecoder(bytes.NewReader(body))
	d.UseNumber()
	if d.Decode(&raw) != nil || !json.Valid(body) {
		return
	}
	has := func(k string) bool { _, x := raw[k]; return x }
	switch {
	case has("errorCode"):
		class = "error"
	case has("objectClassName"):
		class, _ = raw["objectClassName"].(string)
		switch class {
		case "domain", "autnum", "nameserver", "entity", "ip network":
		default:
			return
		}
	case has("domainSearchResults"):
		class = "domain search"
	case has("entitySearchResults"):
		class = "entity search"
	case has("nameserverSearchResults"):
		class = "nameserver search"
	default:
		class = "help"
	}
	return class, raw, true
}

// sdoc is what is left of an object.
type sdoc struct {
	kind  string
	raw   obj
	known map[string]any  // string, bool, json.Number, []string, *sdoc, []*sdoc, *scard
	note  map[string]int  // ill-typed members, and how many parts of them are
	free  map[string]bool // members which may or may not have a note
}

func sanitizeBody(body []byte) *sdoc {
	class, raw, ok := classify(body)
	if !ok {
		return nil
	}
	return sanitize(classes[class], raw)
}

func sanitize(kind string, raw obj) *sdoc {
	d := &sdoc{kind: kind, raw: raw, known: map[string]any{}, note: map[string]int{}, free: map[string]bool{}}
	for k, v := range raw {
		m, ok := kinds[kind][k]
		if !ok {
			continue
		}
		x, ok, note := convert(m, v)
		if ok {
			d.known[k] = x
		}
		if note > 0 {
			d.note[k] = note
		}
		if strings.IndexByte("1248", m.typ) >= 0 {
			d.free[k] = true
		}
	}
	return d
}

// convert gives the value of a member, whether there is one, and whether it was ill-typed.
func convert(m member, v any) (x any, ok bool, note int) {
	switch m.typ {
	case 's':
		switch y := v.(type) {
		case string:
			return y, true, 0
		case bool:
			return strconv.FormatBool(y), true, 1
		case json.Number:
			return floatStr(y), true, 1
		case nil:
			return "", true, 1
		}
		return nil, false, 1
	case 'b':
		switch y := v.(type) {
		case bool:
			return y, true, 0
		case json.Number:
			f, _ := y.Float64()
			return f != 0, true, 1
		case string:
			b, err := strconv.ParseBool(y)
			return b, err == nil, 1
		case nil:
			return false, true, 1
		}
		return nil, false, 1
	case '1', '2', '4', '8':
		n, ok := uint64(0), true
		switch y := v.(type) {
		case bool:
			if y {
				n = 1
			}
		case json.Number:
			f, _ := y.Float64()
			if ok = f >= 0 && f < math.MaxUint64 && f == math.Trunc(f); ok {
				n = uint64(f)
			}
		case string:
			var err error
			n, err = strconv.ParseUint(y, 10, 64)
			ok = err == nil
		case nil:
		default:
			ok = false
		}
		if bits := 8 * uint(m.typ-'0'); bits < 64 && n >= 1<<bits {
			ok = false
		}
		_, isNum := v.(json.Number)
		return json.Number(fmt.Sprint(n)), ok, btoi(!ok || !isNum)
	case 'o':
		if y, ok := v.(obj); ok {
			return sanitize(m.kind, y), true, 0
		}
		return nil, false, 1
	case 'v':
		c, err := card(v, false)
		return c, err == nil, btoi(err != nil)
	}
	l, ok := v.([]any)
	if !ok {
		return nil, false, 1
	}
	var strs []string
	var docs []*sdoc
	for _, e := range l {
		y, ok, n := convert(member{typ: m.typ | 0x20, kind: m.kind}, e)
		note += n
		if !ok {
			continue
		}
		if m.typ == 'S' {
			strs = append(strs, y.(string))
		} else {
			docs = append(docs, y.(*sdoc))
		}
	}
	if m.typ == 'S' {
		return strs, true, note
	}
	return docs, true, note
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func floatStr(n json.Number) string {
	f, _ := n.Float64()
	return strconv.FormatFloat(f, 'f', -1, 64)
}

func (d *sdoc) str(k string) string       { s, _ := d.known[k].(string); return s }
func (d *sdoc) strs(k string) []string    { s, _ := d.known[k].([]string); return s }
func (d *sdoc) docs(k string) []*sdoc     { s, _ := d.known[k].([]*sdoc); return s }
func (d *sdoc) unknown() (names []string) { return d.names(false) }
func (d *sdoc) names(known bool) (names []string) {
	for k := range d.raw {
		if _, ok := kinds[d.kind][k]; known || !ok {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	return names
}

// walk visits an object and those in it.
func (d *sdoc) walk(f func(d *sdoc)) {
	f(d)
	for _, v := range d.known {
		switch x := v.(type) {
		case *sdoc:
			x.walk(f)
		case []*sdoc:
			for _, y := range x {
				y.walk(f)
			}
		}
	}
}

// scard is what is left of a jCard.
type scard struct{ props []*sprop }

type sprop struct {
	name, typ string
	params    map[string][]string
	value     any
}

// card models RFC 7095 as the library documents it: any invalid property
// invalidates the card, unless invalid ones are to be skipped.
func card(v any, skip bool) (*scard, error) {
	l, ok := v.([]any)
	if !ok || len(l) != 2 || l[0] != "vcard" {
		return nil, errors.New("no jCard")
	}
	ps, ok := l[1].([]any)
	if !ok {
		return nil, errors.New("no properties")
	}
	c := &scard{}
	for _, p := range ps {
		if x := cardProp(p); x != nil {
			c.props = append(c.props, x)
		} else if !skip {
			return nil, errors.New("invalid property")
		}
	}
	return c, nil
}

func cardProp(p any) *sprop {
	a, ok := p.([]any)
	if !ok || len(a) < 4 {
		return nil
	}
	x := &sprop{params: map[string][]string{}}
	var o1, o2, o3 bool
	var params obj
	x.name, o1 = a[0].(string)
	params, o2 = a[1].(obj)
	x.typ, o3 = a[2].(string)
	if !o1 || !o2 || !o3 {
		return nil
	}
	for k, v := range params {
		switch y := v.(type) {
		case string:
			x.params[k] = []string{y}
		case []any:
			for _, z := range y {
				if s, ok := z.(string); ok {
					x.params[k] = append(x.params[k], s)
				}
			}
		}
	}
	x.value = a[3]
	if len(a) > 4 {
		x.value = a[3:]
	}
	if !cardValue(x.value, 3) {
		return nil
	}
	return x
}

// cardValue: values are simple, or lists of values, at most three deep.
func cardValue(v any, depth int) bool {
	switch x := v.(type) {
	case obj:
		return false
	case []any:
		if depth == 0 {
			return false
		}
		for _, y := range x {
			if !cardValue(y, depth-1) {
				return false
			}
		}
	}
	return true
}

// flat gives the simple values in a value as text.
func flat(v any) []string {
	switch x := v.(type) {
	case nil:
		return []string{""}
	case string:
		return []string{x}
	case bool:
		return []string{strconv.FormatBool(x)}
	case json.Number:
		return []string{floatStr(x)}
	case []any:
		l := []string{}
		for _, y := range x {
			l = append(l, flat(y)...)
		}
		return l
	}
	panic("value")
}

func (c *scard) first(name string) string {
	for _, p := range c.props {
		if p.name == name {
			return strings.Join(flat(p.value), " ")
		}
	}
	return ""
}

// adr gives a component of the first address.
func (c *scard) adr(i int) string {
	for _, p := range c.props {
		if p.name != "adr" {
			continue
		}
		l, ok := p.value.([]any)
		if !ok {
			l = []any{p.value}
		}
		if i >= len(l) {
			return ""
		}
		return strings.Join(flat(l[i]), " ")
	}
	return ""
}

// tel gives the first telephone number of a type; without a type it is for voice.
func (c *scard) tel(typ string) string {
	for _, p := range c.props {
		if p.name != "tel" {
			continue
		}
		types, typed := p.params["type"]
		ok := !typed && typ == "voice"
		for _, t := range types {
			ok = ok || t == typ
		}
		if l := flat(p.value); ok && len(l) > 0 {
			return l[0]
		}
	}
	return ""
}

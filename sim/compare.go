package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"slices"
	"strings"

	"github.com/openrdap/rdap"
)

// compareObject compares a decoded RDAP object with what the model makes of the
// JSON document it came from, field by field. It gives the properties which
// speak of a difference, and the difference.
func compareObject(d *sdoc, obj rdap.RDAPObject) (props, diff string) {
	v := reflect.ValueOf(obj)
	if v.Kind() != reflect.Pointer || v.IsNil() || v.Elem().Kind() != reflect.Struct {
		return "C02", fmt.Sprintf("it is %v", obj)
	}
	return compareDoc("", d, v.Elem())
}

var (
	vcardType  = reflect.TypeOf((*rdap.VCard)(nil))
	decodeType = reflect.TypeOf((*rdap.DecodeData)(nil))
)

// compareValue compares a field; nil means that nothing usable was sent.
func compareValue(path string, j any, v reflect.Value) (props, diff string) {
	const p = "C20 C02"
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			if j == nil {
				return "", ""
			}
			if v.Type() == vcardType {
				return "C20 C23 C02", path + " is missing"
			}
			return p, path + " is missing"
		}
		if j == nil && v.Type() == vcardType {
			return "C20 C23 C02", fmt.Sprintf("%s is set to %v, but no well-formed card was sent", path, v.Elem().Interface())
		}
		if j == nil {
			return p, fmt.Sprintf("%s is set to %v, but nothing of that type was sent", path, v.Elem().Interface())
		}
		if c, ok := j.(*scard); ok && v.Type() == vcardType {
			d := compareCard(c, v.Interface().(*rdap.VCard))
			if d != "" {
				d = path + ": " + d
			}
			return "C23 C02", d
		}
		return compareValue(path, j, v.Elem())
	}
	bad := func() (string, string) { return p, fmt.Sprintf("%s is %v, sent was %v", path, v.Interface(), j) }
	if j == nil {
		if !v.IsZero() {
			return bad()
		}
		return "", ""
	}
	switch v.Kind() {
	case reflect.String:
		if j != v.String() {
			return bad()
		}
	case reflect.Bool:
		if j != v.Bool() {
			return bad()
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if j != json.Number(fmt.Sprint(v.Interface())) {
			return bad()
		}
	case reflect.Slice:
		var n int
		switch l := j.(type) {
		case []string:
			n = len(l)
		case []*sdoc:
			n = len(l)
		default:
			return bad()
		}
		if n != v.Len() {
			return p, fmt.Sprintf("%s has %d elements instead of %d", path, v.Len(), n)
		}
		for i := 0; i < n; i++ {
			if p, d := compareValue(fmt.Sprintf("%s[%d]", path, i), reflect.ValueOf(j).Index(i).Interface(), v.Index(i)); d != "" {
				return p, d
			}
		}
	case reflect.Struct:
		d, ok := j.(*sdoc)
		if !ok {
			return bad()
		}
		return compareDoc(path, d, v)
	default:
		return p, path + ": kind " + v.Kind().String()
	}
	return "", ""
}

func compareDoc(path string, d *sdoc, v reflect.Value) (props, diff string) {
	seen := map[string]bool{}
	var dd *rdap.DecodeData
	if p, x := compareFields(path, d, v, seen, &dd); x != "" {
		return p, x
	}
	const p = "C20"
	for k := range d.known {
		if !seen[k] {
			return p, fmt.Sprintf("%s.%s has no field", path, k)
		}
	}
	if dd == nil {
		return p, path + " has no decode data"
	}
	for k, x := range d.raw {
		if !reflect.DeepEqual(plain(x), plain(dd.Value(k))) {
			return p, fmt.Sprintf("the decode data has %v for %s.%s, sent was %v", dd.Value(k), path, k, x)
		}
		if n := len(dd.Notes(k)); n < d.note[k] {
			p := p
			if kinds[d.kind][k].typ == 'v' {
				p += " C23"
			}
			return p, fmt.Sprintf("the decode data has %d notes on %s.%s, which is ill-typed: %v", n, path, k, x)
		} else if d.note[k] == 0 && !d.free[k] && n > 0 {
			return p, fmt.Sprintf("the decode data has notes %q on %s.%s, which is fine: %v", dd.Notes(k), path, k, x)
		}
	}
	got := dd.Fields()
	slices.Sort(got)
	if want := d.names(true); !slices.Equal(got, want) {
		return p, fmt.Sprintf("the decode data of %s has the fields %q, sent were %q", path, got, want)
	}
	got = dd.UnknownFields()
	slices.Sort(got)
	if want := d.unknown(); !slices.Equal(got, want) {
		return p, fmt.Sprintf("the decode data of %s has the unknown fields %q, sent were %q", path, got, want)
	}
	return "", ""
}

func compareFields(path string, d *sdoc, v reflect.Value, seen map[string]bool, dd **rdap.DecodeData) (props, diff string) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f, x := t.Field(i), v.Field(i)
		if f.Type == decodeType {
			*dd = x.Interface().(*rdap.DecodeData)
			continue
		}
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			if p, y := compareFields(path, d, x, seen, dd); y != "" {
				return p, y
			}
			continue
		}
		if !f.IsExported() {
			continue
		}
		name := jsonName(t.Name(), f.Name)
		if _, ok := kinds[d.kind][name]; !ok {
			for k := range kinds[d.kind] { // acronyms
				if strings.EqualFold(k, name) {
					name = k
				}
			}
		}
		seen[name] = true
		if p, y := compareValue(path+"."+name, d.known[name], x); y != "" {
			return p, y
		}
	}
	return "", ""
}

// jsonName gives the JSON member of a field, as in RFC 7483.
func jsonName(typ, field string) string {
	switch typ + "." + field {
	case "DomainSearchResults.Domains", "NameserverSearchResults.Nameservers", "EntitySearchResults.Entities":
		return typ
	case "Event.Action", "Event.Actor", "Event.Date":
		return "event" + field
	case "SecureDNS.DS":
		return "dsData"
	case "SecureDNS.Keys":
		return "keyData"
	case "Entity.VCard":
		return "vcardArray"
	}
	if field == "Conformance" {
		return "rdapConformance"
	}
	return field
}

// plain makes values comparable whether numbers were decoded as such or not.
func plain(v any) any {
	switch x := v.(type) {
	case json.Number:
		f, _ := x.Float64()
		return f
	case []any:
		l := []any{}
		for _, e := range x {
			l = append(l, plain(e))
		}
		return l
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = plain(e)
		}
		return m
	}
	return v
}

// compareCard compares a contact card, and what its accessors say, with the model.
func compareCard(want *scard, c *rdap.VCard) string {
	if len(want.props) != len(c.Properties) {
		return fmt.Sprintf("%d properties instead of %d", len(c.Properties), len(want.props))
	}
	by := map[string][]*rdap.VCardProperty{}
	for i, w := range want.props {
		g := c.Properties[i]
		if g.Name != w.name || g.Type != w.typ || !reflect.DeepEqual(plain(g.Value), plain(w.value)) {
			return fmt.Sprintf("property %d is %v, sent was %v", i, g, *w)
		}
		if len(g.Parameters) != len(w.params) {
			return fmt.Sprintf("property %d (%s) has parameters %v, sent were %v", i, w.name, g.Parameters, w.params)
		}
		for k, x := range w.params {
			if !slices.Equal(g.Parameters[k], x) {
				return fmt.Sprintf("property %d (%s) has parameter %s=%q, sent was %q", i, w.name, k, g.Parameters[k], x)
			}
		}
		if x := flat(w.value); !slices.Equal(g.Values(), x) {
			return fmt.Sprintf("property %d (%s) has values %q, sent were %q", i, w.name, g.Values(), x)
		}
		by[w.name] = append(by[w.name], g)
	}
	for name, l := range by {
		if !slices.Equal(c.Get(name), l) || c.GetFirst(name) != l[0] {
			return fmt.Sprintf("Get(%q) gives %v instead of %v", name, c.Get(name), l)
		}
	}
	if c.Get("no-such-property") != nil || c.GetFirst("no-such-property") != nil {
		return "Get gives a property which is not there"
	}
	for _, x := range []struct{ name, got, want string }{
		{"Name", c.Name(), want.first("fn")}, {"POBox", c.POBox(), want.adr(0)}, {"ExtendedAddress", c.ExtendedAddress(), want.adr(1)},
		{"StreetAddress", c.StreetAddress(), want.adr(2)}, {"Locality", c.Locality(), want.adr(3)}, {"Region", c.Region(), want.adr(4)},
		{"PostalCode", c.PostalCode(), want.adr(5)}, {"Country", c.Country(), want.adr(6)}, {"Tel", c.Tel(), want.tel("voice")},
		{"Fax", c.Fax(), want.tel("fax")}, {"Email", c.Email(), want.first("email")}, {"Org", c.Org(), want.first("org")},
	} {
		if x.got != x.want {
			return fmt.Sprintf("%s() is %q instead of %q", x.name, x.got, x.want)
		}
	}
	return ""
}

// compareCards reads the cards of a document on their own, as given and
// without the invalid properties.
func compareCards(d *sdoc) (diff string) {
	d.walk(func(d *sdoc) {
		v, ok := d.raw["vcardArray"]
		if !ok || d.kind != "Entity" || diff != "" {
			return
		}
		blob, _ := json.Marshal(v)
		for _, skip := range []bool{false, true} {
			want, werr := card(v, skip)
			got, err := rdap.NewVCardWithOptions(blob, rdap.VCardOptions{IgnoreInvalidProperties: skip})
			if (err == nil) != (werr == nil) {
				diff = fmt.Sprintf("reading the card %s on its own gives error %v, expected %v", clipStr(string(blob), 200), err, werr)
			} else if err == nil {
				if diff = compareCard(want, got); diff != "" {
					diff = fmt.Sprintf("reading the card on its own (skipping invalid properties: %v): %s", skip, diff)
				}
			}
		}
	})
	return diff
}

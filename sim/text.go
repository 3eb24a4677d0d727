package main

import (
	"encoding/json"
	"fmt"
	"slices"
	"sort"
	"strings"
)

// The reference model of text output: a tree of labelled lines made from the
// model of the document, without the library's decoder and printer. Lines of
// one object may come in any order, except those of one list (grp names it).

type textNode struct {
	line string
	sub  []*textNode
	grp  string
}

// textOpts are the options of the library's printer. With brief output, the
// objects below an entity may be there or not (inner): the documentation does
// not list them among what is left out, the code leaves them out.
type textOpts struct{ briefLinks, omitNotices, omitRemarks, brief, inner bool }

// leftOut are the members left out of brief output.
var leftOut = map[string]bool{"rdapConformance": true, "notices": true, "remarks": true, "events": true, "asEventActor": true, "port43": true, "variants": true, "secureDNS": true}

// wantText is the tree expected for a response.
func wantText(d *sdoc, o textOpts) *textNode {
	return &textNode{sub: []*textNode{textOf(d, o)}}
}

func textOf(d *sdoc, o textOpts) *textNode {
	n := &textNode{line: d.kind + ":"}
	for k, v := range d.known {
		if o.brief && (leftOut[k] || d.kind == "Entity" && !o.inner && (k == "networks" || k == "autnums" || k == "entities")) {
			continue
		}
		label := kinds[d.kind][k].label
		from := len(n.sub)
		sub := func(x *sdoc) {
			switch {
			case x.kind == "Link" && o.briefLinks:
				n.value("Link", x.str("href"))
			case x.kind == "Notice" && o.omitNotices, x.kind == "Remark" && o.omitRemarks:
			default:
				n.sub = append(n.sub, textOf(x, o))
			}
		}
		switch x := v.(type) {
		case *sdoc:
			sub(x)
		case []*sdoc:
			for _, y := range x {
				sub(y)
			}
		case *scard:
			for _, p := range x.props {
				for _, y := range flat(p.value) {
					n.value("vCard "+p.name, y)
				}
			}
		case []string:
			for _, y := range x {
				n.known(label, y)
			}
		default:
			n.known(label, fmt.Sprint(v))
		}
		n.group(from, k)
	}
	for _, k := range d.unknown() {
		from := len(n.sub)
		n.other(k, d.raw[k])
		n.group(from, k)
	}
	return n
}

// group marks what was added from a place on as one list.
func (n *textNode) group(from int, name string) {
	for _, x := range n.sub[from:] {
		x.grp = name
	}
}

func (n *textNode) known(label, s string) {
	if label != "" {
		n.value(label, s)
	}
}

// noBreaks is what must not be printed as it is.
var noBreaks = strings.NewReplacer("\n", "", "\r", "", "\x00", "")

// value adds a line.
func (n *textNode) value(label, s string) {
	if s != "" {
		n.sub = append(n.sub, &textNode{line: noBreaks.Replace(label + ": " + s)})
	}
}

// other adds a member which is not part of RDAP.
func (n *textNode) other(k string, v any) {
	switch x := v.(type) {
	case nil:
		n.value(k, "[unprintable value]")
	case json.Number:
		n.value(k, floatStr(x))
	case []any:
		for _, y := range x {
			n.other(k, y)
		}
	case obj:
		c := &textNode{line: noBreaks.Replace(k + ":")}
		for k2, y := range x {
			from := len(c.sub)
			c.other(k2, y)
			c.group(from, k2)
		}
		n.sub = append(n.sub, c)
	default:
		n.value(k, fmt.Sprint(v))
	}
}

// gotText reads the tree off the indentation of the output.
func gotText(out []byte, indent string) *textNode {
	root := &textNode{}
	type open struct {
		depth int
		n     *textNode
	}
	st := []open{{-1, root}}
	for _, l := range strings.Split(strings.TrimSuffix(string(out), "\n"), "\n") {
		t := strings.TrimLeft(l, indent)
		d := len(l) - len(t)
		for st[len(st)-1].depth >= d {
			st = st[:len(st)-1]
		}
		x := &textNode{line: t}
		p := st[len(st)-1].n
		p.sub = append(p.sub, x)
		st = append(st, open{d, x})
	}
	return root
}

func (n *textNode) String() string {
	if len(n.sub) == 0 {
		return n.line
	}
	var l []string
	for _, x := range n.sub {
		l = append(l, x.String())
	}
	sort.Strings(l)
	return n.line + "{" + strings.Join(l, "|") + "}"
}

// diffText describes the first difference of two trees.
func diffText(want, got *textNode) string {
	if d := diffLines(want, got); d != "" {
		return d
	}
	return diffOrder(want, got)
}

// diffOrder compares the order within lists, of trees with the same lines.
func diffOrder(want, got *textNode) string {
	wants := map[string][]*textNode{} // by their text
	mixed := map[string]bool{}        // texts and lists which cannot be told from others
	for _, x := range want.sub {
		k := x.String()
		if l := wants[k]; len(l) > 0 && l[0].grp != x.grp {
			mixed[k], mixed["list "+x.grp], mixed["list "+l[0].grp] = true, true, true
		}
		wants[k] = append(wants[k], x)
	}
	w, g := map[string][]string{}, map[string][]string{}
	for _, x := range want.sub {
		w[x.grp] = append(w[x.grp], x.String())
	}
	for _, x := range got.sub {
		k := x.String()
		if grp := wants[k][0].grp; !mixed["list "+grp] {
			g[grp] = append(g[grp], k)
		}
	}
	for grp, l := range g {
		if !slices.Equal(l, w[grp]) {
			return fmt.Sprintf("below %q, %s has the order %q, sent was %q", want.line, grp, clipStr(fmt.Sprint(l), 160), clipStr(fmt.Sprint(w[grp]), 160))
		}
	}
	for _, x := range got.sub {
		k := x.String()
		y := wants[k][0]
		wants[k] = wants[k][1:]
		if !mixed[k] {
			if d := diffOrder(y, x); d != "" {
				return d
			}
		}
	}
	return ""
}

func diffLines(want, got *textNode) string {
	if want.line != got.line {
		return fmt.Sprintf("the line %q is missing, %q is there", want.line, got.line)
	}
	var w, g []*textNode
	count := map[string]int{}
	for _, x := range got.sub {
		count[x.String()]++
	}
	for _, x := range want.sub {
		if count[x.String()] > 0 {
			count[x.String()]--
		} else {
			w = append(w, x)
		}
	}
	for _, x := range got.sub {
		if count[x.String()] > 0 {
			count[x.String()]--
			g = append(g, x)
		}
	}
	if len(w) == 0 && len(g) == 0 {
		return ""
	}
	for _, x := range w {
		for _, y := range g {
			if x.line == y.line && len(x.sub) > 0 && len(w) == 1 && len(g) == 1 {
				return diffLines(x, y)
			}
		}
	}
	var a, b []string
	for _, x := range w {
		a = append(a, clipStr(x.String(), 80))
	}
	for _, x := range g {
		b = append(b, clipStr(x.String(), 80))
	}
	return fmt.Sprintf("below %q, %q is missing and %q is too much", want.line, a, b)
}

package main

import (
	"bytes"
	"fmt"
	"net/url"
	"reflect"
	"sort"
	"strings"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
)

// kept is something a caller still holds; later operations must not change it.
type kept struct {
	props, what string
	diff        func() string
}

func (p *Proc) keep(props, what string, diff func() string) {
	p.kept = append(p.kept, kept{props, what, diff})
	if len(p.kept) > 8 {
		p.kept = p.kept[1:]
	}
}

// checkKept looks at what the callers of a process hold after an operation.
func (s *Sim) checkKept(op *Op) {
	if len(s.viol) > 0 {
		return
	}
	for _, k := range op.proc.kept {
		if d := k.diff(); d != "" {
			s.violate(k.props, "held-changed", "%s %s changes %s: %s", op.key, op.desc, k.what, d)
			return
		}
	}
}

func urlList(l []*url.URL) string {
	var x []string
	for _, u := range l {
		x = append(x, fmt.Sprintf("%s|%#v", u, *u))
	}
	return strings.Join(x, " ")
}

func fileStr(f *bootstrap.File) string {
	var l []string
	for k, v := range f.Entries {
		l = append(l, k+" -> "+urlList(v))
	}
	sort.Strings(l)
	return fmt.Sprintf("%s %s %s %q\n%s", f.Description, f.Version, f.Publication, f.JSON, strings.Join(l, "\n"))
}

func firstDiff(a, b string) string {
	if a == b {
		return ""
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	i = max(0, i-20)
	return fmt.Sprintf("%q became %q", clipStr(a[i:], 80), clipStr(b[i:], 80))
}

func (p *Proc) keepFile(op *Op, f *bootstrap.File) {
	x := fileStr(f)
	p.keep("C11", "the registry returned by "+op.key, func() string { return firstDiff(x, fileStr(f)) })
}

func answerStr(a *bootstrap.Answer) string {
	return fmt.Sprintf("%s %s %s", a.Query, a.Entry, urlList(a.URLs))
}

func (p *Proc) keepAnswer(op *Op, a *bootstrap.Answer) {
	x := answerStr(a)
	p.keep("C11", "the answer returned by "+op.key, func() string { return firstDiff(x, answerStr(a)) })
}

func (p *Proc) keepRequest(op *Op, r *rdap.Request, x reqSnap) {
	p.keep("C11", "the request of "+op.key, func() string {
		if !x.same(r) {
			return fmt.Sprintf("server %s -> %v, params %v -> %v", x.server, r.Server, x.params, r.Params)
		}
		return ""
	})
}

func (p *Proc) keepResponse(op *Op, r *rdap.Response) {
	var bodies [][]byte
	var objBody []byte
	for _, h := range r.HTTP {
		objBody = append([]byte(nil), h.Body...)
		bodies = append(bodies, objBody)
	}
	o := r.Object
	p.keep("C02 C11", "the response returned by "+op.key, func() string {
		if len(r.HTTP) != len(bodies) || r.Object != o {
			return "its records or object were replaced"
		}
		for i, h := range r.HTTP {
			if !bytes.Equal(h.Body, bodies[i]) {
				return fmt.Sprintf("the body in record %d is not the same any more", i)
			}
		}
		if !isNil(o) && !reflect.DeepEqual(o, decodeBody(objBody)) {
			return "its object is not the same any more"
		}
		return ""
	})
}

// instr writes copies of the non-test Go files of some packages with a call of
// zzSimYield before every statement, and the overlay map for them.
//
//	instr OUTDIR DIR...
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

func call() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("zzSimYield")}}
}

func weave(l []ast.Stmt) []ast.Stmt {
	var o []ast.Stmt
	for _, s := range l {
		o = append(o, call(), s)
	}
	return o
}

func main() {
	out := os.Args[1]
	rep := map[string]string{}
	for _, dir := range os.Args[2:] {
		es, err := os.ReadDir(dir)
		check(err)
		pkg := ""
		for _, e := range es {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			path := filepath.Join(dir, n)
			fset := token.NewFileSet()
			// Comments are left out (build constraints excepted): go/format would misplace them.
			src, err := os.ReadFile(path)
			check(err)
			f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			check(err)
			keep := ""
			embed := false
			for _, g := range f.Comments {
				for _, c := range g.List {
					if strings.HasPrefix(c.Text, "//go:build") {
						keep += c.Text + "\n\n"
					} else if strings.HasPrefix(c.Text, "//go:") {
						embed = true // a directive which belongs to a declaration
					}
				}
			}
			if f.Name.Name == "main" || embed {
				continue
			}
			pkg = f.Name.Name
			f, err = parser.ParseFile(fset, path, src, 0)
			check(err)
			ast.Inspect(f, visitor)
			var buf bytes.Buffer
			buf.WriteString(keep)
			check(format.Node(&buf, fset, f))
			// Positions shift; that does not matter here.
			p := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(path, "/"), "/", "__"))
			write(p, buf.Bytes())
			rep[path] = p
		}
		if pkg != "" {
			p := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(dir, "/"), "/", "__")+"__zz_sim.go")
			write(p, []byte("package "+pkg+"\n\nimport \"runtime\"\n\nfunc zzSimYield() { runtime.SimYield() }\n"))
			rep[filepath.Join(dir, "zz_sim_yield.go")] = p
		}
	}
	b, err := json.Marshal(rep)
	check(err)
	os.Stdout.Write(b)
}

// visitor adds the calls; it is not applied to the clause lists of switch and select.
func visitor(x ast.Node) bool {
	switch b := x.(type) {
	case *ast.BlockStmt:
		b.List = weave(b.List)
	case *ast.CaseClause:
		b.Body = weave(b.Body)
	case *ast.CommClause:
		b.Body = weave(b.Body)
	case *ast.SwitchStmt:
		for _, c := range b.Body.List {
			ast.Inspect(c, visitor)
		}
		visit(b.Init, b.Tag)
		return false
	case *ast.TypeSwitchStmt:
		for _, c := range b.Body.List {
			ast.Inspect(c, visitor)
		}
		visit(b.Init, b.Assign)
		return false
	case *ast.SelectStmt:
		for _, c := range b.Body.List {
			ast.Inspect(c, visitor)
		}
		return false
	}
	return true
}

func visit(l ...ast.Node) {
	for _, n := range l {
		switch n {
		case nil:
		default:
			ast.Inspect(n, visitor)
		}
	}
}

func write(p string, b []byte) {
	if old, err := os.ReadFile(p); err == nil && bytes.Equal(old, b) {
		return
	}
	check(os.MkdirAll(filepath.Dir(p), 0o755))
	check(os.WriteFile(p, b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

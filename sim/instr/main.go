// Command instr copies Go files with scheduling points between their statements.
//
//	instr full|locks DST (PATH NAME)...
//
// copies PATH to DST/NAME. Imports of "sync" become imports of the simulator's locks. With
// "full", before every statement comes a call of Yield; an assignment that reads what it writes is
// split at the point where it has read; goroutines are given names that depend only on who
// started them.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type insertion struct {
	at, del, order int
	text           string
}

func main() {
	yields, dst := os.Args[1] == "full", os.Args[2]
	for i := 3; i+1 < len(os.Args); i += 2 {
		src, name := os.Args[i], os.Args[i+1]
		b, err := os.ReadFile(src)
		if err != nil {
			fail(err)
		}
		out, err := instrument(src, name, string(b), yields)
		if err != nil {
			// not ours to report: the compiler will
			out = string(b)
		}
		to := filepath.Join(dst, name)
		if err := os.MkdirAll(filepath.Dir(to), 0o755); err != nil {
			fail(err)
		}
		if err := os.WriteFile(to, []byte("//line "+src+":1\n"+out), 0o644); err != nil {
			fail(err)
		}
	}
}

// builtin has the functions that are part of the language
var builtin = map[string]bool{"close": true, "panic": true, "print": true, "println": true, "delete": true, "copy": true, "clear": true, "recover": true}

func fail(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}

func instrument(path, name, src string, yields bool) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return "", err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	// offsets must not be changed by line directives
	tf := fset.File(f.Pos())
	off = func(p token.Pos) int { return tf.Offset(p) }
	text := func(n ast.Node) string { return src[off(n.Pos()):off(n.End())] }
	h := fnv.New32a()
	h.Write([]byte(name))
	site := int(h.Sum32()%20000) * 10000
	if strings.HasPrefix(name, "pkg/curve/") || strings.HasPrefix(name, "pkg/crypto/") {
		site += 1 << 30 // simsync.Deep
	}
	next := func() string { site++; return strconv.Itoa(site) }
	var ins []insertion
	add := func(at, del int, s string) { ins = append(ins, insertion{at, del, len(ins), s}) }

	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			add(off(im.Path.Pos()), len(im.Path.Value), `"aaa.verif/sim/simsync"`)
		}
	}
	if !yields {
		return apply(src, ins), nil
	}
	first := site

	// the function literals around the node being visited
	var stack []ast.Node
	inner := func() *ast.FuncLit {
		for i := len(stack) - 1; i >= 0; i-- {
			if l, ok := stack[i].(*ast.FuncLit); ok {
				return l
			}
			if _, ok := stack[i].(*ast.FuncDecl); ok {
				return nil
			}
		}
		return nil
	}
	// shared tells whether x may be seen by another goroutine
	var shared func(x ast.Expr) bool
	shared = func(x ast.Expr) bool {
		switch x := x.(type) {
		case *ast.SelectorExpr, *ast.StarExpr:
			return !calls(x)
		case *ast.IndexExpr:
			return shared(x.X) && !calls(x.Index)
		case *ast.Ident:
			l := inner()
			if l == nil || x.Obj == nil || x.Name == "_" {
				return false
			}
			d, ok := x.Obj.Decl.(ast.Node)
			return ok && (d.Pos() < l.Pos() || d.Pos() >= l.End())
		}
		return false
	}
	reads := func(rhs, lhs ast.Expr) bool {
		want, found := text(lhs), false
		ast.Inspect(rhs, func(n ast.Node) bool {
			if e, ok := n.(ast.Expr); ok && text(e) == want {
				found = true
			}
			return !found
		})
		return found
	}
	// split takes an assignment that reads what it writes apart, where it has read
	split := func(s ast.Stmt, before string) bool {
		switch x := s.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !shared(x.Lhs[0]) || hasFunc(x.Rhs[0]) {
				return false
			}
			l, r := text(x.Lhs[0]), text(x.Rhs[0])
			if x.Tok == token.ASSIGN && reads(x.Rhs[0], x.Lhs[0]) {
				add(off(x.Pos()), 0, before)
				add(off(x.Rhs[0].Pos()), 0, fmt.Sprintf("simsync_.Pass(%s, ", next()))
				add(off(x.End()), 0, ")")
				return true
			}
			if x.Tok >= token.ADD_ASSIGN && x.Tok <= token.AND_NOT_ASSIGN {
				op := x.Tok.String()
				add(off(x.Pos()), off(x.End())-off(x.Pos()), before+fmt.Sprintf("%s = simsync_.Pass(%s, %s %s (%s))", l, next(), l, op[:len(op)-1], r))
				return true
			}
		case *ast.IncDecStmt:
			if shared(x.X) {
				l := text(x.X)
				add(off(x.Pos()), off(x.End())-off(x.Pos()), before+fmt.Sprintf("%s = simsync_.Pass(%s, %s %s 1)", l, next(), l, x.Tok.String()[:1]))
				return true
			}
		}
		return false
	}
	// changed is the map that s stores into or deletes from (or a slice), if that is all it does
	changed := func(s ast.Stmt) string {
		var m ast.Expr
		switch x := s.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == 1 && x.Tok == token.ASSIGN {
				if i, ok := x.Lhs[0].(*ast.IndexExpr); ok {
					m = i.X
				}
			}
		case *ast.ExprStmt:
			if c, ok := x.X.(*ast.CallExpr); ok && len(c.Args) == 2 {
				if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "delete" && id.Obj == nil {
					m = c.Args[0]
				}
			}
		}
		for e := m; e != nil; {
			switch x := e.(type) {
			case *ast.Ident:
				return text(m)
			case *ast.SelectorExpr:
				e = x.X
			default:
				return ""
			}
		}
		return ""
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch x := s.(type) {
			case *ast.EmptyStmt:
				continue
			case *ast.GoStmt:
				if lit, ok := x.Call.Fun.(*ast.FuncLit); ok {
					v := fmt.Sprintf("simsyncName%d_", site)
					add(off(x.Pos()), 0, fmt.Sprintf("simsync_.Yield(%s); %s := simsync_.Spawn(); ", next(), v))
					add(off(lit.Body.Lbrace)+1, 0, fmt.Sprintf(" simsync_.Adopt(%s);", v))
					continue
				}
				if id, ok := x.Call.Fun.(*ast.Ident); ok && id.Obj == nil && builtin[id.Name] {
					break
				}
				add(off(x.Pos()), 0, fmt.Sprintf("simsync_.Yield(%s); ", next()))
				add(off(x.Call.Fun.Pos()), 0, "simsync_.Named(simsync_.Spawn(), ")
				add(off(x.Call.Fun.End()), 0, ")")
				continue
			}
			if m := changed(s); m != "" {
				add(off(s.Pos()), 0, fmt.Sprintf("simsync_.MapBegin(%s, &%s); ", next(), m))
				add(off(s.End()), 0, fmt.Sprintf("; simsync_.MapEnd(&%s)", m))
			}
			yield := fmt.Sprintf("simsync_.Yield(%s); ", next())
			if !split(s, yield) {
				add(off(s.Pos()), 0, yield)
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		switch x := n.(type) {
		case *ast.BlockStmt:
			// the bodies of switch and select hold clauses
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
				default:
					stmts(x.List)
				}
			}
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.IfStmt:
			split(x.Init, "")
		case *ast.SwitchStmt:
			split(x.Init, "")
		case *ast.ForStmt:
			split(x.Post, "")
		}
		stack = append(stack, n)
		return true
	})
	if site > first {
		add(off(f.Name.End()), 0, `; import simsync_ "aaa.verif/sim/simsync"`)
	}
	return apply(src, ins), nil
}

// hasFunc tells whether statements are inside the expression.
func hasFunc(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			found = true
		}
		return !found
	})
	return found
}

// calls tells whether functions are called in the expression.
func calls(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.CallExpr); ok {
			found = true
		}
		return !found
	})
	return found
}

func apply(src string, ins []insertion) string {
	sort.SliceStable(ins, func(i, j int) bool {
		if ins[i].at != ins[j].at {
			return ins[i].at < ins[j].at
		}
		return ins[i].order < ins[j].order
	})
	var out []byte
	at := 0
	for _, x := range ins {
		if x.at < at {
			continue
		}
		out = append(out, src[at:x.at]...)
		out = append(out, x.text...)
		at = x.at + x.del
	}
	return string(append(out, src[at:]...))
}

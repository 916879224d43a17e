package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// Loops over a literal list of at most eight items are spelled out before the code is analysed: the
// checks see the same statements whether the source repeats them or loops over the items.

func unrollDir(dir string) map[string][]byte {
	r := map[string][]byte{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); p != dir && (strings.HasPrefix(n, ".") || n == "vendor" || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		for n := 0; n < 50; n++ {
			s, ok := unrollOne(p, src, n)
			if !ok {
				break
			}
			src = s
			r[p] = s
		}
		return nil
	})
	return r
}

// unrollOne spells out the first loop that can be.
func unrollOne(path string, src []byte, n int) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.SkipObjectResolution|parser.ParseComments)
	if err != nil {
		return nil, false
	}
	labeled := map[ast.Stmt]bool{}
	var found *ast.RangeStmt
	ast.Inspect(f, func(x ast.Node) bool {
		if l, ok := x.(*ast.LabeledStmt); ok {
			labeled[l.Stmt] = true
		}
		if s, ok := x.(*ast.RangeStmt); ok && found == nil && !labeled[s] && unrollable(s) {
			found = s
		}
		return found == nil
	})
	if found == nil {
		return nil, false
	}
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
	lit := ast.Unparen(found.X).(*ast.CompositeLit)
	name := fmt.Sprintf("kcItems%d", n)
	at := func(p token.Pos) string {
		q := fset.Position(p)
		return fmt.Sprintf("/*line %s:%d:%d*/", q.Filename, q.Line, q.Column)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "{ %s := %s%s; _ = %s\n", name, at(found.X.Pos()), text(found.X), name)
	assign := found.Tok.String()
	for i := range lit.Elts {
		b.WriteString("{ ")
		if k, ok := found.Key.(*ast.Ident); ok && k.Name != "_" {
			fmt.Fprintf(&b, "%s %s %d; ", k.Name, assign, i)
		}
		if v, ok := found.Value.(*ast.Ident); ok && v.Name != "_" {
			fmt.Fprintf(&b, "%s %s %s[%d]; ", v.Name, assign, name, i)
		}
		fmt.Fprintf(&b, "%s%s\n}\n", at(found.Body.Pos()), text(found.Body))
	}
	b.WriteString("}" + at(found.End()))
	out := append([]byte{}, src[:off(found.Pos())]...)
	out = append(out, b.Bytes()...)
	return append(out, src[off(found.End()):]...), true
}

func unrollable(s *ast.RangeStmt) bool {
	lit, ok := ast.Unparen(s.X).(*ast.CompositeLit)
	if !ok || len(lit.Elts) == 0 || len(lit.Elts) > 8 || s.Tok != token.DEFINE {
		return false
	}
	if _, ok := lit.Type.(*ast.ArrayType); !ok {
		return false
	}
	for _, e := range lit.Elts {
		if _, ok := e.(*ast.KeyValueExpr); ok {
			return false
		}
	}
	for _, v := range []ast.Expr{s.Key, s.Value} {
		if v != nil {
			if _, ok := v.(*ast.Ident); !ok {
				return false
			}
		}
	}
	return !leaves(s.Body, false, false)
}

// leaves: does the body contain a break or continue of its own loop, a label or a goto?
func leaves(n ast.Node, inLoop, inSwitch bool) (r bool) {
	ast.Inspect(n, func(x ast.Node) bool {
		if r || x == n && n != nil && (inLoop || inSwitch) {
			return !r
		}
		switch y := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.LabeledStmt:
			r = true
		case *ast.BranchStmt:
			switch {
			case y.Label != nil || y.Tok == token.GOTO:
				r = true
			case y.Tok == token.BREAK:
				r = !inLoop && !inSwitch
			case y.Tok == token.CONTINUE:
				r = !inLoop
			}
		case *ast.ForStmt, *ast.RangeStmt:
			r = r || leaves(y, true, inSwitch)
			return false
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			r = r || leaves(y, inLoop, true)
			return false
		}
		return !r
	})
	return
}

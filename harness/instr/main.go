// instr copies the Go files of a package, turning every access to shared memory into a scheduling
// point: sync, sync/atomic, runtime and time are replaced by the shims, plain accesses to fields,
// package variables and through pointers get explicit yields, and read-modify-write statements are split.
package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
)

var shims = map[string]string{"sync": "gxverif/shim/sync", "sync/atomic": "gxverif/shim/atomic",
	"runtime": "gxverif/shim/runtime", "time": "gxverif/shim/time"}

var (
	info *types.Info
	pkg  *types.Package
	site int
)

func fatal(a ...interface{}) { fmt.Fprintln(os.Stderr, a...); os.Exit(1) }

func main() {
	src, dst := os.Args[1], os.Args[2]
	bp, err := build.ImportDir(src, 0)
	if err != nil {
		fatal(err)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range bp.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(src, f), nil, 0)
		if err != nil {
			fatal(err)
		}
		files = append(files, a)
	}
	info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil)}
	if pkg, err = conf.Check(bp.ImportPath, fset, files, info); err != nil {
		fatal(err)
	}
	os.MkdirAll(dst, 0755)
	for i, a := range files {
		used := false
		for _, d := range a.Decls {
			if f, ok := d.(*ast.FuncDecl); ok && f.Body != nil {
				if blockStmt(f.Body) {
					used = true
				}
			}
		}
		for _, im := range a.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if q, ok := shims[p]; ok {
				if im.Name == nil {
					im.Name = ast.NewIdent(filepath.Base(p))
				}
				im.Path.Value = strconv.Quote(q)
			}
		}
		if used {
			d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("zzsched"),
				Path: &ast.BasicLit{Kind: token.STRING, Value: `"gxverif/sched"`}}}}
			a.Decls = append([]ast.Decl{d}, a.Decls...)
		}
		o, err := os.Create(filepath.Join(dst, bp.GoFiles[i]))
		if err != nil {
			fatal(err)
		}
		if err := (&printer.Config{Mode: printer.UseSpaces, Tabwidth: 4}).Fprint(o, fset, a); err != nil {
			fatal(err)
		}
		o.Close()
	}
}

// shared tells whether e denotes memory other goroutines may reach: a field, a package variable,
// something behind a pointer or in a slice.
func shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return shared(x.X)
	case *ast.Ident:
		v, ok := info.Uses[x].(*types.Var)
		return ok && v.Parent() == pkg.Scope()
	case *ast.SelectorExpr:
		if s := info.Selections[x]; s != nil {
			if s.Kind() != types.FieldVal {
				return false
			}
			if _, ptr := s.Recv().Underlying().(*types.Pointer); ptr || s.Indirect() {
				return true
			}
			return shared(x.X)
		}
		return false // another package's name
	case *ast.StarExpr:
		return info.Types[x].IsValue()
	case *ast.IndexExpr:
		if tv, ok := info.Types[x.X]; ok && tv.IsValue() {
			switch tv.Type.Underlying().(type) {
			case *types.Array:
				return shared(x.X)
			}
			return true
		}
	}
	return false
}

// reads tells whether evaluating e reads shared memory (function literals excluded).
func reads(e ast.Node) (r bool) {
	if e == nil {
		return false
	}
	ast.Inspect(e, func(n ast.Node) bool {
		if r {
			return false
		}
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.UnaryExpr:
			if x.Op == token.AND { // only an address
				if shared(x.X) {
					r = addr(x.X)
					return false
				}
			}
		case *ast.SelectorExpr:
			if s := info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
				// x.m(): with a pointer receiver on an addressable operand only the address is taken
				sig := s.Obj().Type().(*types.Signature)
				if sig.Recv() != nil {
					_, ptrRecv := sig.Recv().Type().Underlying().(*types.Pointer)
					_, ptrX := info.Types[x.X].Type.Underlying().(*types.Pointer)
					if ptrRecv && !ptrX {
						r = addr(x.X)
						return false
					}
				}
			}
			if shared(x) {
				r = true
				return false
			}
		case ast.Expr:
			if shared(x) {
				r = true
				return false
			}
		}
		return true
	})
	return
}

// addr: does computing the address of e read shared memory?
func addr(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return addr(x.X)
	case *ast.Ident:
		return false
	case *ast.SelectorExpr:
		if s := info.Selections[x]; s != nil {
			if _, ptr := s.Recv().Underlying().(*types.Pointer); ptr {
				return reads(x.X)
			}
			return addr(x.X)
		}
		return false
	case *ast.StarExpr:
		return reads(x.X)
	}
	return reads(e)
}

func ident(s string) *ast.Ident { return ast.NewIdent(s) }
func call(f string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ident("zzsched"), Sel: ident(f)}, Args: args}
}
func key() ast.Expr {
	site++
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(site*2 + 1)}
}
func yield() ast.Stmt { return &ast.ExprStmt{X: call("Yield", key())} }
func after() ast.Stmt { return &ast.ExprStmt{X: call("After")} }

// cond puts a yield into a loop condition.
func cond(e ast.Expr) ast.Expr {
	return &ast.BinaryExpr{X: call("Y", key()), Op: token.LAND, Y: &ast.ParenExpr{X: e}}
}

func lits(n ast.Node) (used bool) {
	ast.Inspect(n, func(m ast.Node) bool {
		if f, ok := m.(*ast.FuncLit); ok {
			if blockStmt(f.Body) {
				used = true
			}
			return false
		}
		return true
	})
	return
}

func blockStmt(b *ast.BlockStmt) (used bool) {
	if b == nil {
		return
	}
	b.List, used = stmts(b.List)
	return
}

func stmts(in []ast.Stmt) (out []ast.Stmt, used bool) {
	for _, st := range in {
		if x, ok := st.(*ast.IncDecStmt); ok && shared(x.X) { // x++ is a read and a write
			op := token.ADD_ASSIGN
			if x.Tok == token.DEC {
				op = token.SUB_ASSIGN
			}
			st = &ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: op, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "1"}}}
		}
		pre, post, u := stmt(st)
		out = append(out, pre...)
		out = append(out, st)
		out = append(out, post...)
		used = used || u || len(pre)+len(post) > 0
	}
	return
}

// stmt instruments one statement in place and returns what goes before and after it.
func stmt(st ast.Stmt) (pre, post []ast.Stmt, used bool) {
	switch x := st.(type) {
	case *ast.LabeledStmt:
		_, _, used = stmt(x.Stmt)
		return
	case *ast.BlockStmt:
		used = blockStmt(x)
		return
	case *ast.IfStmt:
		used = lits2(x.Init) || lits(x.Cond)
		if (x.Init != nil && touches(x.Init)) || reads(x.Cond) {
			pre = append(pre, yield())
		}
		if blockStmt(x.Body) {
			used = true
		}
		if x.Else != nil {
			p, _, u := stmt(x.Else)
			used = used || u
			if len(p) > 0 { // else if with shared reads: wrap
				x.Else = &ast.BlockStmt{List: append(p, x.Else)}
				used = true
			}
		}
		return
	case *ast.ForStmt:
		used = lits2(x.Init)
		if x.Init != nil && touches(x.Init) {
			pre = append(pre, yield())
		}
		if x.Cond != nil && reads(x.Cond) {
			x.Cond = cond(x.Cond)
			used = true
		}
		if blockStmt(x.Body) {
			used = true
		}
		return
	case *ast.RangeStmt:
		if reads(x.X) {
			pre = append(pre, yield())
		}
		used = blockStmt(x.Body)
		return
	case *ast.SwitchStmt:
		if (x.Init != nil && touches(x.Init)) || (x.Tag != nil && reads(x.Tag)) || casesRead(x.Body) {
			pre = append(pre, yield())
		}
		used = clauses(x.Body)
		return
	case *ast.TypeSwitchStmt:
		pre = append(pre, yield())
		used = clauses(x.Body)
		return
	case *ast.SelectStmt:
		used = clauses(x.Body)
		return
	case *ast.IncDecStmt:
		if reads(x.X) {
			pre = append(pre, yield())
		}
		return
	case *ast.AssignStmt:
		used = lits(x)
		w, r := false, false
		for _, l := range x.Lhs {
			if x.Tok != token.DEFINE && shared(l) {
				w = true
			}
			if addr(l) {
				r = true
			}
		}
		for _, e := range x.Rhs {
			r = r || reads(e)
		}
		if w && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
			if x.Tok != token.ASSIGN {
				// x op= e  =>  x = V(x op e)
				if op, ok := opOf[x.Tok]; ok {
					x.Rhs[0] = &ast.BinaryExpr{X: x.Lhs[0], Op: op, Y: &ast.ParenExpr{X: x.Rhs[0]}}
					x.Tok = token.ASSIGN
					x.Rhs[0] = call("V", x.Rhs[0])
					r = true
				}
			} else if tv := info.Types[x.Rhs[0]]; tv.Value == nil && !tv.IsNil() && types.Identical(tv.Type, info.Types[x.Lhs[0]].Type) && reads(x.Rhs[0]) {
				x.Rhs[0] = call("V", x.Rhs[0])
			}
		}
		if w || r {
			pre = append(pre, yield())
		}
		if w {
			post = append(post, after())
		}
		return
	case *ast.GoStmt, *ast.DeferStmt:
		used = lits(st)
		return
	case *ast.ReturnStmt, *ast.ExprStmt, *ast.SendStmt, *ast.DeclStmt:
		used = lits(st)
		if reads(st) {
			pre = append(pre, yield())
		}
		return
	}
	return
}

func lits2(s ast.Stmt) bool {
	if s == nil {
		return false
	}
	return lits(s)
}

var opOf = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.XOR_ASSIGN: token.XOR, token.QUO_ASSIGN: token.QUO}

func touches(s ast.Stmt) bool {
	if s == nil {
		return false
	}
	if a, ok := s.(*ast.AssignStmt); ok {
		for _, e := range a.Rhs {
			if reads(e) {
				return true
			}
		}
		for _, e := range a.Lhs {
			if a.Tok != token.DEFINE && (shared(e) || addr(e)) {
				return true
			}
		}
		return false
	}
	return reads(s)
}

func casesRead(b *ast.BlockStmt) bool {
	for _, c := range b.List {
		if cc, ok := c.(*ast.CaseClause); ok {
			for _, e := range cc.List {
				if reads(e) {
					return true
				}
			}
		}
	}
	return false
}

func clauses(b *ast.BlockStmt) (used bool) {
	for _, c := range b.List {
		var u bool
		switch x := c.(type) {
		case *ast.CaseClause:
			x.Body, u = stmts(x.Body)
		case *ast.CommClause:
			x.Body, u = stmts(x.Body)
		}
		used = used || u
	}
	return
}

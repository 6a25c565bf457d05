// Command fine writes copies of Go source files with a scheduling point before
// every statement that reads or writes memory which other goroutines may see
// (fields, elements, package variables, variables shared with closures), and
// between the read and the write of updates such as x.f++ and x.f = append(x.f, v).
// Usage: fine OUTDIR FILE... ; prints {"original": "copy", ...}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

const pkgName = "zzmcrt"

type inst struct {
	pkgVars map[string]bool
	imports map[string]bool
	shared  map[*ast.Object]bool // captured by a closure and assigned more than once
	pkgObjs map[*ast.Object]bool // package variables of this file
	points  int
	tmp     int
}

func main() {
	out := os.Args[1]
	m := map[string]string{}
	// Package variables of all files of a directory.
	vars := map[string]map[string]bool{}
	for _, f := range os.Args[2:] {
		d := filepath.Dir(f)
		if vars[d] == nil {
			vars[d] = map[string]bool{}
		}
		a, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue // the compiler reports it
		}
		for _, dl := range a.Decls {
			if g, ok := dl.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						vars[d][n.Name] = true
					}
				}
			}
		}
	}
	for i, f := range os.Args[2:] {
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			continue
		}
		in := &inst{pkgVars: vars[filepath.Dir(f)], imports: map[string]bool{}, shared: map[*ast.Object]bool{}, pkgObjs: map[*ast.Object]bool{}}
		for n := range in.pkgVars {
			if o := a.Scope.Lookup(n); o != nil {
				in.pkgObjs[o] = true
			}
		}
		for _, s := range a.Imports {
			p := strings.Trim(s.Path.Value, `"`)
			n := filepath.Base(p)
			if s.Name != nil {
				n = s.Name.Name
			}
			in.imports[n] = true
		}
		for _, d := range a.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				in.findShared(fd)
			}
		}
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body != nil && d.Name.Name != "init" {
					in.node(d.Body)
				}
			}
		}
		if in.points == 0 {
			continue
		}
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent(pkgName), Path: &ast.BasicLit{Kind: token.STRING, Value: `"runtime"`}}}}
		a.Decls = append([]ast.Decl{imp}, a.Decls...)
		dst := filepath.Join(out, fmt.Sprintf("f%d_%s", i, filepath.Base(f)))
		w, err := os.Create(dst)
		if err == nil {
			// New positions would disturb the printer: print without positions.
			err = (&printer.Config{Mode: printer.RawFormat}).Fprint(w, fs, a)
			w.Close()
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		m[f] = dst
	}
	json.NewEncoder(os.Stdout).Encode(m)
}

// findShared marks the variables that a function literal uses although they are
// declared outside of it, and that are assigned after their declaration.
func (in *inst) findShared(fd *ast.FuncDecl) {
	captured := map[*ast.Object]bool{}
	assigned := map[*ast.Object]bool{}
	var walk func(n ast.Node, lit *ast.FuncLit)
	walk = func(n ast.Node, lit *ast.FuncLit) {
		ast.Inspect(n, func(c ast.Node) bool {
			switch c := c.(type) {
			case *ast.FuncLit:
				if c != lit {
					walk(c, c)
					return false
				}
			case *ast.Ident:
				if lit != nil && c.Obj != nil && c.Obj.Kind == ast.Var {
					if p := c.Obj.Pos(); p < lit.Pos() || p > lit.End() {
						captured[c.Obj] = true
					}
				}
			case *ast.AssignStmt:
				if c.Tok != token.DEFINE {
					for _, l := range c.Lhs {
						if id, ok := l.(*ast.Ident); ok && id.Obj != nil {
							assigned[id.Obj] = true
						}
					}
				} else {
					for _, l := range c.Lhs {
						if id, ok := l.(*ast.Ident); ok && id.Obj != nil && id.Pos() != id.Obj.Pos() {
							assigned[id.Obj] = true
						}
					}
				}
			case *ast.IncDecStmt:
				if id, ok := c.X.(*ast.Ident); ok && id.Obj != nil {
					assigned[id.Obj] = true
				}
			case *ast.UnaryExpr:
				if id, ok := c.X.(*ast.Ident); ok && c.Op == token.AND && id.Obj != nil {
					assigned[id.Obj] = true
				}
			}
			return true
		})
	}
	walk(fd, nil)
	for o := range captured {
		if assigned[o] {
			in.shared[o] = true
		}
	}
}

// node instruments all statement lists below n.
func (in *inst) node(n ast.Node) {
	ast.Inspect(n, func(c ast.Node) bool {
		switch c := c.(type) {
		case *ast.BlockStmt:
			c.List = in.list(c.List)
		case *ast.CaseClause:
			c.Body = in.list(c.Body)
		case *ast.CommClause:
			c.Body = in.list(c.Body)
		}
		return true
	})
}

func (in *inst) point() ast.Stmt {
	in.points++
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(pkgName), Sel: ast.NewIdent("MCPoint")},
		Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}, &ast.BasicLit{Kind: token.INT, Value: "0"}}}}
}

func (in *inst) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for i, s := range l {
		if _, ok := s.(*ast.CaseClause); ok {
			return l
		}
		if _, ok := s.(*ast.CommClause); ok {
			return l
		}
		if in.touches(s) {
			out = append(out, in.point())
			if r := in.split(s, i == len(l)-1); r != nil {
				out = append(out, r...)
				continue
			}
		}
		out = append(out, s)
	}
	return out
}

// split returns the statement as a read, a point and a write.
func (in *inst) split(s ast.Stmt, last bool) []ast.Stmt {
	mk := func(lhs, read, rhs ast.Expr, name string) []ast.Stmt {
		return []ast.Stmt{
			&ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{read}},
				in.point(),
				&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}},
			}},
		}
	}
	ok := func(x ast.Expr) bool {
		switch x := x.(type) {
		case *ast.SelectorExpr:
			return simple(x)
		case *ast.Ident:
			return in.sharedIdent(x)
		case *ast.IndexExpr:
			return simple(x.X) && simple(x.Index)
		case *ast.StarExpr:
			return simple(x.X)
		}
		return false
	}
	in.tmp++
	name := fmt.Sprintf("zzmc%d", in.tmp)
	switch s := s.(type) {
	case *ast.IncDecStmt:
		if ok(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return mk(s.X, s.X, &ast.BinaryExpr{X: ast.NewIdent(name), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}, name)
		}
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || !ok(s.Lhs[0]) {
			return nil
		}
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND}
		if op, is := ops[s.Tok]; is && simple(s.Rhs[0]) {
			return mk(s.Lhs[0], s.Lhs[0], &ast.BinaryExpr{X: ast.NewIdent(name), Op: op, Y: &ast.ParenExpr{X: s.Rhs[0]}}, name)
		}
		if s.Tok != token.ASSIGN {
			return nil
		}
		if c, is := s.Rhs[0].(*ast.CallExpr); is {
			if id, is := c.Fun.(*ast.Ident); is && id.Name == "append" && id.Obj == nil {
				return mk(s.Lhs[0], c, ast.NewIdent(name), name)
			}
		}
	}
	return nil
}

// simple expressions have no calls and no side effects.
func simple(x ast.Expr) bool {
	ok := true
	ast.Inspect(x, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (in *inst) sharedIdent(id *ast.Ident) bool {
	if id.Obj != nil {
		if id.Obj.Kind == ast.Var && in.shared[id.Obj] {
			return true
		}
		return in.pkgObjs[id.Obj]
	}
	return in.pkgVars[id.Name]
}

// touches reports whether the statement itself (not the statements nested in
// it) accesses memory that other goroutines may see.
func (in *inst) touches(s ast.Stmt) bool {
	found := false
	var expr func(n ast.Node)
	expr = func(n ast.Node) {
		if n == nil || found {
			return
		}
		ast.Inspect(n, func(c ast.Node) bool {
			if found {
				return false
			}
			switch c := c.(type) {
			case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
				return false
			case *ast.SendStmt:
				if !chain(c.Chan) {
					expr(c.Chan)
				}
				expr(c.Value)
				return false
			case *ast.UnaryExpr:
				if c.Op == token.ARROW && chain(c.X) {
					return false
				}
			case *ast.RangeStmt:
				if !chain(c.X) {
					expr(c.X)
				} else if _, ok := c.X.(*ast.SelectorExpr); ok {
					found = true
				}
				return false
			case *ast.CallExpr:
				if chain(c.Fun) {
					for _, a := range c.Args {
						expr(a)
					}
					return false
				}
			case *ast.SelectorExpr:
				if id, ok := c.X.(*ast.Ident); ok && id.Obj == nil && in.imports[id.Name] {
					return false
				}
				found = true
				return false
			case *ast.IndexExpr, *ast.StarExpr:
				found = true
				return false
			case *ast.Ident:
				if in.sharedIdent(c) {
					found = true
				}
			case *ast.KeyValueExpr:
				expr(c.Value)
				return false
			}
			return true
		})
	}
	switch s := s.(type) {
	case *ast.BlockStmt, *ast.LabeledStmt, *ast.SelectStmt, *ast.EmptyStmt, *ast.BranchStmt, *ast.DeclStmt:
		if l, ok := s.(*ast.LabeledStmt); ok {
			return in.touches(l.Stmt)
		}
		if d, ok := s.(*ast.DeclStmt); ok {
			if g, ok := d.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					for _, v := range sp.(*ast.ValueSpec).Values {
						expr(v)
					}
				}
			}
			return found
		}
		return false
	case *ast.IfStmt:
		if s.Init != nil {
			expr(s.Init)
		}
		expr(s.Cond)
	case *ast.ForStmt:
		if s.Init != nil {
			expr(s.Init)
		}
		if s.Cond != nil {
			expr(s.Cond)
		}
	case *ast.SwitchStmt:
		if s.Init != nil {
			expr(s.Init)
		}
		if s.Tag != nil {
			expr(s.Tag)
		}
	case *ast.TypeSwitchStmt:
		expr(s.Assign)
	case *ast.GoStmt:
		for _, a := range s.Call.Args {
			expr(a)
		}
	case *ast.DeferStmt:
		for _, a := range s.Call.Args {
			expr(a)
		}
	default:
		expr(s)
	}
	return found
}

// chain is a.b.c without anything else.
func chain(x ast.Expr) bool {
	switch x := x.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return chain(x.X)
	}
	return false
}

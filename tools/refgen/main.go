// refgen rewrites every function of a package with one behaviour-preserving transformation.
// Development aid: the checks must stay quiet on what it writes. Usage: refgen DIR KIND
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

var (
	info *types.Info
	nth  int
	cnt  int
)

func fresh(p string) string { nth++; return fmt.Sprintf("%s%d_", p, nth) }
func id(n string) *ast.Ident { return ast.NewIdent(n) }

func isInt(e ast.Expr) bool {
	t, ok := info.Types[e]
	if !ok || t.Type == nil {
		return false
	}
	b, ok := t.Type.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isNum(e ast.Expr) bool {
	t, ok := info.Types[e]
	if !ok || t.Type == nil {
		return false
	}
	b, ok := t.Type.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func assigns(n ast.Node, name string) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch a := x.(type) {
		case *ast.AssignStmt:
			for _, l := range a.Lhs {
				if i, ok := l.(*ast.Ident); ok && i.Name == name {
					found = true
				}
			}
		case *ast.IncDecStmt:
			if i, ok := a.X.(*ast.Ident); ok && i.Name == name {
				found = true
			}
		}
		return true
	})
	return found
}

func hasBranch(n ast.Node, toks ...token.Token) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		if _, ok := x.(*ast.FuncLit); ok {
			return false
		}
		if b, ok := x.(*ast.BranchStmt); ok {
			for _, t := range toks {
				if b.Tok == t {
					found = true
				}
			}
		}
		return true
	})
	return found
}
func hasReturn(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		if _, ok := x.(*ast.FuncLit); ok {
			return false
		}
		if _, ok := x.(*ast.ReturnStmt); ok {
			found = true
		}
		return true
	})
	return found
}
func ends(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch x := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			if i, ok := c.Fun.(*ast.Ident); ok && i.Name == "panic" {
				return true
			}
		}
	}
	return false
}
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.IndexExpr, *ast.StarExpr, *ast.TypeAssertExpr:
			ok = false
		}
		return ok
	})
	return ok
}

// stmts maps over every statement list, innermost first.
func lists(n ast.Node, f func([]ast.Stmt) []ast.Stmt) {
	ast.Inspect(n, func(x ast.Node) bool {
		return true
	})
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(x ast.Node) bool {
			if x == nil || x == n {
				return true
			}
			switch b := x.(type) {
			case *ast.BlockStmt:
				walk(b)
				b.List = f(b.List)
				return false
			case *ast.CaseClause:
				for _, s := range b.Body {
					walk(&ast.BlockStmt{List: []ast.Stmt{s}})
				}
				b.Body = f(b.Body)
				return false
			}
			return true
		})
	}
	walk(n)
}

func exprs(n ast.Node, f func(ast.Expr) ast.Expr) {
	rl := func(l []ast.Expr) {
		for i := range l {
			l[i] = f(l[i])
		}
	}
	ast.Inspect(n, func(x ast.Node) bool {
		switch e := x.(type) {
		case *ast.BinaryExpr:
			e.X, e.Y = f(e.X), f(e.Y)
		case *ast.ParenExpr:
			e.X = f(e.X)
		case *ast.UnaryExpr:
			e.X = f(e.X)
		case *ast.CallExpr:
			rl(e.Args)
		case *ast.IndexExpr:
			e.Index = f(e.Index)
		case *ast.AssignStmt:
			rl(e.Rhs)
		case *ast.ReturnStmt:
			rl(e.Results)
		case *ast.IfStmt:
			e.Cond = f(e.Cond)
		case *ast.ForStmt:
			if e.Cond != nil {
				e.Cond = f(e.Cond)
			}
		}
		return true
	})
}

func main() {
	dir, kind := os.Args[1], os.Args[2]
	fset := token.NewFileSet()
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var files []*ast.File
	var names []string
	for _, m := range ms {
		if strings.HasSuffix(m, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, m, nil, 0)
		if err != nil {
			panic(err)
		}
		files = append(files, f)
		names = append(names, m)
	}
	info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	conf.Check("x", fset, files, info)
	for i, f := range files {
		var extra []ast.Decl
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			extra = append(extra, apply(kind, fd)...)
		}
		f.Decls = append(f.Decls, extra...)
		f.Comments = nil
		var b bytes.Buffer
		if err := format.Node(&b, fset, f); err != nil {
			panic(err)
		}
		if err := os.WriteFile(names[i], b.Bytes(), 0644); err != nil {
			panic(err)
		}
	}
	fmt.Println(kind, cnt, "rewritten")
}

func typeExpr(e ast.Expr) ast.Expr { return e }

func apply(kind string, fd *ast.FuncDecl) []ast.Decl {
	switch kind {
	case "while": // for init; cond; post -> { init; for cond { ...; post } }
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				f, ok := s.(*ast.ForStmt)
				if !ok || f.Init == nil || f.Post == nil || hasBranch(f.Body, token.CONTINUE) {
					continue
				}
				body := &ast.BlockStmt{List: append(append([]ast.Stmt{}, f.Body.List...), f.Post)}
				l[i] = &ast.BlockStmt{List: []ast.Stmt{f.Init, &ast.ForStmt{Cond: f.Cond, Body: body}}}
				cnt++
			}
			return l
		})
	case "forever": // for ; cond ; -> for { if !cond { break }; ... }
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			for _, s := range l {
				f, ok := s.(*ast.ForStmt)
				if !ok || f.Cond == nil {
					continue
				}
				f.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: f.Cond}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, f.Body.List...)
				f.Cond = nil
				cnt++
			}
			return l
		})
	case "ifswap":
		ast.Inspect(fd, func(n ast.Node) bool {
			if s, ok := n.(*ast.IfStmt); ok && s.Else != nil {
				if e, ok := s.Else.(*ast.BlockStmt); ok {
					s.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: s.Cond}}
					s.Body, s.Else = e, s.Body
					cnt++
				}
			}
			return true
		})
	case "rettemp":
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				if r, ok := s.(*ast.ReturnStmt); ok && len(r.Results) == 1 {
					t, known := info.Types[r.Results[0]]
					_, tuple := t.Type.(*types.Tuple)
					if known && !tuple && !t.IsNil() && t.Value == nil {
						n := fresh("res")
						out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.Results[0]}})
						r.Results[0] = id(n)
						cnt++
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "opassign":
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO}
		ast.Inspect(fd, func(n ast.Node) bool {
			if a, ok := n.(*ast.AssignStmt); ok {
				if op, ok := ops[a.Tok]; ok {
					a.Tok = token.ASSIGN
					a.Rhs[0] = &ast.BinaryExpr{X: a.Lhs[0], Op: op, Y: &ast.ParenExpr{X: a.Rhs[0]}}
					cnt++
				}
			}
			return true
		})
	case "incr":
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			conv := func(s ast.Stmt) ast.Stmt {
				if x, ok := s.(*ast.IncDecStmt); ok {
					cnt++
					op := token.ADD
					if x.Tok == token.DEC {
						op = token.SUB
					}
					return &ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: x.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}}
				}
				return s
			}
			for i, s := range l {
				if f, ok := s.(*ast.ForStmt); ok && f.Post != nil {
					f.Post = conv(f.Post)
				}
				l[i] = conv(s)
			}
			return l
		})
	case "flipcmp":
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
		ast.Inspect(fd, func(n ast.Node) bool {
			if b, ok := n.(*ast.BinaryExpr); ok {
				if op, ok := flip[b.Op]; ok {
					b.X, b.Y, b.Op = b.Y, b.X, op
					cnt++
				}
			}
			return true
		})
	case "notcmp":
		flip := map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS}
		done := map[ast.Expr]bool{}
		exprs(fd, func(e ast.Expr) ast.Expr {
			if done[e] {
				return e
			}
			if b, ok := e.(*ast.BinaryExpr); ok && isInt(b.X) && isInt(b.Y) {
				if op, ok := flip[b.Op]; ok {
					cnt++
					b.Op = op
					done[b] = true
					return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: b}}
				}
			}
			return e
		})
	case "lastcmp": // i < n -> i <= n-1
		ast.Inspect(fd, func(n ast.Node) bool {
			if b, ok := n.(*ast.BinaryExpr); ok && b.Op == token.LSS && isInt(b.X) && isInt(b.Y) {
				b.Op = token.LEQ
				b.Y = &ast.BinaryExpr{X: b.Y, Op: token.SUB, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
				cnt++
			}
			return true
		})
	case "commute":
		ast.Inspect(fd, func(n ast.Node) bool {
			if b, ok := n.(*ast.BinaryExpr); ok && (b.Op == token.ADD || b.Op == token.MUL) && isNum(b) && pure(b.X) && pure(b.Y) {
				wrap := func(e ast.Expr) ast.Expr {
					if _, ok := e.(*ast.BinaryExpr); ok {
						return &ast.ParenExpr{X: e}
					}
					return e
				}
				b.X, b.Y = wrap(b.Y), wrap(b.X)
				cnt++
			}
			return true
		})
	case "nest": // if a && b { } -> if a { if b { } };  if a || b { ends } -> if a { ends }; if b { ends }
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				f, ok := s.(*ast.IfStmt)
				if ok && f.Init == nil && f.Else == nil {
					c := f.Cond
					if p, ok := c.(*ast.ParenExpr); ok {
						c = p.X
					}
					if b, ok := c.(*ast.BinaryExpr); ok && b.Op == token.LAND {
						out = append(out, &ast.IfStmt{Cond: b.X, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: f.Body}}}})
						cnt++
						continue
					}
					if b, ok := c.(*ast.BinaryExpr); ok && b.Op == token.LOR && ends(f.Body) {
						out = append(out, &ast.IfStmt{Cond: b.X, Body: f.Body}, &ast.IfStmt{Cond: b.Y, Body: f.Body})
						cnt++
						continue
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "elserest": // if c { ends }; rest -> if c { ends } else { rest }
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			for i := len(l) - 2; i >= 0; i-- {
				f, ok := l[i].(*ast.IfStmt)
				if !ok || f.Else != nil || !ends(f.Body) {
					continue
				}
				f.Else = &ast.BlockStmt{List: append([]ast.Stmt{}, l[i+1:]...)}
				l = l[:i+1]
				cnt++
			}
			return l
		})
		// functions with results must end in a terminating statement: if/else of such is one
	case "self":
		if fd.Recv != nil && len(fd.Recv.List) == 1 && len(fd.Recv.List[0].Names) == 1 {
			obj := info.Defs[fd.Recv.List[0].Names[0]]
			n := fresh("self")
			used := false
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				if i, ok := x.(*ast.Ident); ok && obj != nil && info.Uses[i] == obj {
					i.Name = n
					used = true
				}
				return true
			})
			if used {
				fd.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{id(obj.Name())}}}, fd.Body.List...)
				cnt++
			}
		}
	case "impl": // the body moves to a helper
		if fd.Name.Name == "init" || fd.Name.Name == "main" {
			return nil
		}
		for _, f := range fd.Type.Params.List {
			if len(f.Names) == 0 {
				return nil
			}
			for _, n := range f.Names {
				if n.Name == "_" {
					return nil
				}
			}
		}
		if fd.Recv != nil && len(fd.Recv.List[0].Names) == 0 {
			return nil
		}
		n := fresh(strings.ToLower(fd.Name.Name) + "Impl")
		h := &ast.FuncDecl{Name: id(n), Type: fd.Type, Body: fd.Body, Recv: fd.Recv}
		var fun ast.Expr = id(n)
		if fd.Recv != nil {
			fun = &ast.SelectorExpr{X: id(fd.Recv.List[0].Names[0].Name), Sel: id(n)}
		}
		call := &ast.CallExpr{Fun: fun}
		for _, f := range fd.Type.Params.List {
			for _, n := range f.Names {
				call.Args = append(call.Args, id(n.Name))
			}
			if _, ok := f.Type.(*ast.Ellipsis); ok {
				call.Ellipsis = 1
			}
		}
		var st ast.Stmt = &ast.ExprStmt{X: call}
		if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
			st = &ast.ReturnStmt{Results: []ast.Expr{call}}
		}
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{st}}
		cnt++
		return []ast.Decl{h}
	case "closure": // loop bodies become immediately called functions
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			for _, s := range l {
				var b *ast.BlockStmt
				switch f := s.(type) {
				case *ast.ForStmt:
					b = f.Body
				case *ast.RangeStmt:
					b = f.Body
				}
				if b == nil || hasReturn(b) || hasBranch(b, token.BREAK, token.CONTINUE, token.GOTO) {
					continue
				}
				b.List = []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: b.List}}}}}
				cnt++
			}
			return l
		})
	case "closurevar": // loop bodies become local functions called by name
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			for _, s := range l {
				var b *ast.BlockStmt
				switch f := s.(type) {
				case *ast.ForStmt:
					b = f.Body
				case *ast.RangeStmt:
					b = f.Body
				}
				if b == nil || hasReturn(b) || hasBranch(b, token.BREAK, token.CONTINUE, token.GOTO) {
					continue
				}
				n := fresh("step")
				b.List = []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: b.List}}}}, &ast.ExprStmt{X: &ast.CallExpr{Fun: id(n)}}}
				cnt++
			}
			return l
		})
	case "closurearg": // the body of a counting loop becomes a local function of its counter, defined before the loop
		var walk func(l []ast.Stmt) []ast.Stmt
		walk = func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				f, ok := s.(*ast.ForStmt)
				if ok && f.Init != nil {
					a, ok := f.Init.(*ast.AssignStmt)
					if ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 && isInt(a.Rhs[0]) && !hasReturn(f.Body) && !hasBranch(f.Body, token.BREAK, token.CONTINUE, token.GOTO) && !assigns(f.Body, a.Lhs[0].(*ast.Ident).Name) {
						n := fresh("step")
						i := a.Lhs[0].(*ast.Ident).Name
						out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{id(i)}, Type: id("int")}}}}, Body: &ast.BlockStmt{List: f.Body.List}}}})
						f.Body.List = []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: id(n), Args: []ast.Expr{id(i)}}}}
						cnt++
					}
				}
				out = append(out, s)
			}
			return out
		}
		lists(fd, walk)
	case "switch": // if/else chains become switches
		var conv func(f *ast.IfStmt) ast.Stmt
		conv = func(f *ast.IfStmt) ast.Stmt {
			sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
			var cur ast.Stmt = f
			for {
				i, ok := cur.(*ast.IfStmt)
				if !ok {
					sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: cur.(*ast.BlockStmt).List})
					return sw
				}
				if i.Init != nil {
					return nil
				}
				sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{i.Cond}, Body: i.Body.List})
				if i.Else == nil {
					return sw
				}
				cur = i.Else
			}
		}
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				if f, ok := s.(*ast.IfStmt); ok && f.Else != nil && !hasBranch(f, token.BREAK) {
					if r := conv(f); r != nil {
						l[i] = r
						cnt++
					}
				}
			}
			return l
		})
	case "argtemp": // arguments of calls used as statements or right hand sides get names
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				var c *ast.CallExpr
				switch x := s.(type) {
				case *ast.ExprStmt:
					c, _ = x.X.(*ast.CallExpr)
				case *ast.AssignStmt:
					if len(x.Rhs) == 1 && len(x.Lhs) == 1 {
						if _, ok := x.Lhs[0].(*ast.Ident); ok {
							c, _ = x.Rhs[0].(*ast.CallExpr)
						}
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 1 {
						c, _ = x.Results[0].(*ast.CallExpr)
					}
				}
				if c != nil {
					tv := info.Types[c.Fun]
					if !tv.IsBuiltin() && !tv.IsType() {
						for i, a := range c.Args {
							t := info.Types[a]
							if t.Type == nil || t.IsNil() || t.Value != nil {
								continue
							}
							if _, ok := t.Type.(*types.Tuple); ok {
								continue
							}
							if _, ok := a.(*ast.FuncLit); ok {
								continue
							}
							n := fresh("arg")
							out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
							c.Args[i] = id(n)
							cnt++
						}
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "range": // for i := 0; i < len(x); i++ -> for i := range x
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				f, ok := s.(*ast.ForStmt)
				if !ok || f.Init == nil || f.Cond == nil || f.Post == nil {
					continue
				}
				in, ok1 := f.Init.(*ast.AssignStmt)
				c, ok2 := f.Cond.(*ast.BinaryExpr)
				if !ok1 || !ok2 || in.Tok != token.DEFINE || len(in.Lhs) != 1 || c.Op != token.LSS {
					continue
				}
				if b, ok := in.Rhs[0].(*ast.BasicLit); !ok || b.Value != "0" {
					continue
				}
				if p, ok := f.Post.(*ast.IncDecStmt); !ok || p.Tok != token.INC {
					continue
				}
				call, ok := c.Y.(*ast.CallExpr)
				if !ok {
					continue
				}
				if fn, ok := call.Fun.(*ast.Ident); !ok || fn.Name != "len" {
					continue
				}
				v := info.Defs[in.Lhs[0].(*ast.Ident)]
				bad := false
				ast.Inspect(f.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.AssignStmt:
						for _, e := range x.Lhs {
							if i, ok := e.(*ast.Ident); ok && info.Uses[i] == v {
								bad = true
							}
						}
					case *ast.IncDecStmt:
						if i, ok := x.X.(*ast.Ident); ok && info.Uses[i] == v {
							bad = true
						}
					}
					return true
				})
				if bad {
					continue
				}
				l[i] = &ast.RangeStmt{Key: in.Lhs[0], Tok: token.DEFINE, X: call.Args[0], Body: f.Body}
				cnt++
			}
			return l
		})
	case "unrange": // for i, v := range x -> for i := 0; i < len(x); i++ { v := x[i]; ... }
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				f, ok := s.(*ast.RangeStmt)
				if !ok || f.Tok != token.DEFINE || !pure(f.X) {
					continue
				}
				if _, ok := info.Types[f.X].Type.Underlying().(*types.Slice); !ok {
					continue
				}
				k := fresh("idx")
				if id0, ok := f.Key.(*ast.Ident); ok && id0.Name != "_" {
					k = id0.Name
				}
				var pre []ast.Stmt
				if f.Value != nil {
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{f.Value}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: f.X, Index: id(k)}}})
				}
				l[i] = &ast.ForStmt{
					Init: &ast.AssignStmt{Lhs: []ast.Expr{id(k)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
					Cond: &ast.BinaryExpr{X: id(k), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{f.X}}},
					Post: &ast.IncDecStmt{X: id(k), Tok: token.INC},
					Body: &ast.BlockStmt{List: append(pre, f.Body.List...)},
				}
				cnt++
			}
			return l
		})
	case "reverse": // for i := 0; i < n; i++ -> counts down with a mirrored index, only for loops that fill by index
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			for _, s := range l {
				f, ok := s.(*ast.ForStmt)
				if !ok || f.Init == nil || f.Cond == nil || f.Post == nil || len(f.Body.List) != 1 {
					continue
				}
				in, ok1 := f.Init.(*ast.AssignStmt)
				c, ok2 := f.Cond.(*ast.BinaryExpr)
				p, ok3 := f.Post.(*ast.IncDecStmt)
				a, ok4 := f.Body.List[0].(*ast.AssignStmt)
				if !ok1 || !ok2 || !ok3 || !ok4 || in.Tok != token.DEFINE || len(in.Lhs) != 1 || c.Op != token.LSS || p.Tok != token.INC || a.Tok != token.ASSIGN {
					continue
				}
				ix, ok := a.Lhs[0].(*ast.IndexExpr)
				if !ok || !pure(c.Y) {
					continue
				}
				base, ok := ix.X.(*ast.Ident)
				if !ok {
					continue
				}
				iv, ok := in.Lhs[0].(*ast.Ident)
				if x, ok2 := ix.Index.(*ast.Ident); !ok || !ok2 || x.Name != iv.Name {
					continue
				}
				// the right hand side must not read another element of the base
				bad := false
				ast.Inspect(a.Rhs[0], func(n ast.Node) bool {
					if i, ok := n.(*ast.Ident); ok && i.Name == base.Name {
						bad = true
					}
					return true
				})
				if _, ok := a.Rhs[0].(*ast.CallExpr); ok {
					bad = true
				}
				if bad {
					continue
				}
				one := &ast.BasicLit{Kind: token.INT, Value: "1"}
				lo := in.Rhs[0]
				in.Rhs[0] = &ast.BinaryExpr{X: c.Y, Op: token.SUB, Y: one}
				f.Cond = &ast.BinaryExpr{X: iv, Op: token.GEQ, Y: lo}
				p.Tok = token.DEC
				cnt++
			}
			return l
		})
	case "deadstmt":
		fd.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}}}, fd.Body.List...)
		cnt++
	case "condtemp": // if c -> ok := c; if ok
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				f, ok := s.(*ast.IfStmt)
				if !ok || f.Init != nil {
					continue
				}
				n := fresh("cond")
				c := f.Cond
				f.Cond = id(n)
				l[i] = &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{c}}, f}}
				// a function must still end in a terminating statement
				cnt++
			}
			return l
		})
	case "hoist": // loop bounds get names (bounds that do not change in the loop)
		lists(fd, func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				f, ok := s.(*ast.ForStmt)
				if !ok || f.Cond == nil || f.Init == nil {
					continue
				}
				c, ok := f.Cond.(*ast.BinaryExpr)
				if !ok || !isInt(c.Y) || info.Types[c.Y].Value != nil {
					continue
				}
				vars := map[types.Object]bool{}
				sel := false
				ast.Inspect(c.Y, func(n ast.Node) bool {
					if x, ok := n.(*ast.Ident); ok && info.Uses[x] != nil {
						vars[info.Uses[x]] = true
					}
					switch x := n.(type) {
					case *ast.SelectorExpr, *ast.IndexExpr:
						sel = true
					case *ast.CallExpr:
						if f, ok := x.Fun.(*ast.Ident); !ok || f.Name != "len" {
							if ff, ok := x.Fun.(*ast.Ident); !ok || (ff.Name != "min" && ff.Name != "max") {
								sel = true
							}
						}
					}
					return true
				})
				bad := sel
				ast.Inspect(f, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.AssignStmt:
						for _, e := range x.Lhs {
							if i, ok := e.(*ast.Ident); ok && vars[info.Uses[i]] {
								bad = true
							}
						}
					case *ast.IncDecStmt:
						if i, ok := x.X.(*ast.Ident); ok && vars[info.Uses[i]] {
							bad = true
						}
					}
					return true
				})
				if in, ok := f.Init.(*ast.AssignStmt); ok && len(in.Lhs) == 1 {
					if x, ok := in.Lhs[0].(*ast.Ident); ok && vars[info.Defs[x]] {
						bad = true
					}
				}
				if bad {
					continue
				}
				n := fresh("end")
				y := c.Y
				c.Y = id(n)
				l[i] = &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{y}}, f}}
				cnt++
			}
			return l
		})
	default:
		panic("unknown kind " + kind)
	}
	return nil
}

// mutgen lists small source mutations of the package in a directory as JSON lines
// {file, off, end, new, fn, kind}. Development aid: measures what the checks detect.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Fn   string `json:"fn"`
	Kind string `json:"kind"`
}

func main() {
	dir := os.Args[1]
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, dir, func(fi os.FileInfo) bool { return !strings.HasSuffix(fi.Name(), "_test.go") }, 0)
	if err != nil {
		panic(err)
	}
	var files []*ast.File
	var names []string
	for _, p := range pkgs {
		for n := range p.Files {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			files = append(files, p.Files[n])
		}
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil)}
	if _, err := conf.Check("linear", fset, files, info); err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	for i, f := range files {
		src, _ := os.ReadFile(names[i])
		base := filepath.Base(names[i])
		text := func(n ast.Node) string {
			return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn := info.Defs[fd.Name].(*types.Func).FullName()
			fn = strings.Replace(fn, "linear.", "", 1)
			out := func(pos, end token.Pos, nw, kind string) {
				_ = enc.Encode(mut{base, fset.Position(pos).Offset, fset.Position(end).Offset, nw, fn, kind})
			}
			ints := map[string]bool{}
			ast.Inspect(fd, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					if v, ok := info.Defs[id].(*types.Var); ok && id.Name != "_" && types.Identical(v.Type(), types.Typ[types.Int]) {
						ints[id.Name] = true
					}
				}
				return true
			})
			var intl []string
			for k := range ints {
				intl = append(intl, k)
			}
			sort.Strings(intl)
			isInt := func(e ast.Expr) bool {
				t := info.Types[e].Type
				return t != nil && types.Identical(t.Underlying(), types.Typ[types.Int])
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					if b, ok := info.Types[x.X].Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
						return true
					}
					sw := map[token.Token][]string{token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}}
					for _, o := range sw[x.Op] {
						out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "op "+x.Op.String()+" to "+o)
					}
					if x.Op == token.ADD || x.Op == token.SUB {
						out(x.Pos(), x.End(), text(x.X), "drop right of "+x.Op.String())
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						out(x.Pos(), x.End(), "("+x.Value+"+1)", "const+1")
					}
				case *ast.IndexExpr:
					if isInt(x.Index) {
						out(x.Index.Pos(), x.Index.End(), text(x.Index)+" - 1", "index-1")
					}
				case *ast.Ident:
					v, ok := info.Uses[x].(*types.Var)
					if ok && !v.IsField() && ints[x.Name] && isInt(x) {
						for _, o := range intl {
							if o != x.Name {
								out(x.Pos(), x.End(), o, "ident "+x.Name+" to "+o)
							}
						}
					}
				case *ast.SelectorExpr:
					pairs := map[string]string{"RowDimension": "ColumnDimension", "ColumnDimension": "RowDimension", "blockRows": "blockColumns", "blockColumns": "blockRows", "rows": "columns", "columns": "rows"}
					if p := pairs[x.Sel.Name]; p != "" {
						out(x.Sel.Pos(), x.Sel.End(), p, "select "+x.Sel.Name+" to "+p)
					}
				case *ast.AssignStmt:
					if x.Tok == token.ADD_ASSIGN {
						out(x.TokPos, x.TokPos+2, "-=", "+= to -=")
						out(x.TokPos, x.TokPos+2, "=", "+= to =")
					}
					if x.Tok == token.SUB_ASSIGN {
						out(x.TokPos, x.TokPos+2, "+=", "-= to +=")
					}
					if x.Tok == token.MUL_ASSIGN {
						out(x.TokPos, x.TokPos+2, "=", "*= to =")
					}
					if x.Tok != token.DEFINE {
						out(x.Pos(), x.End(), "", "delete assignment")
					}
				case *ast.ExprStmt:
					out(x.Pos(), x.End(), "", "delete call")
				case *ast.IfStmt:
					if x.Init == nil {
						out(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate")
						if x.Else == nil {
							out(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "never")
							out(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "always")
						}
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 && x.Ellipsis.IsValid() {
						if cl, ok := x.Args[0].(*ast.CompositeLit); ok && len(cl.Elts) == 0 {
							out(x.Pos(), x.End(), text(x.Args[1]), "drop copy")
						}
					}
					if s, ok := x.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Copy" {
						out(x.Pos(), x.End(), text(s.X), "drop Copy")
					}
					for k := 0; k+1 < len(x.Args); k++ {
						a, b := info.Types[x.Args[k]].Type, info.Types[x.Args[k+1]].Type
						if a != nil && b != nil && types.Identical(a, b) && text(x.Args[k]) != text(x.Args[k+1]) {
							out(x.Args[k].Pos(), x.Args[k+1].End(), text(x.Args[k+1])+", "+text(x.Args[k]), "swap arguments")
						}
					}
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.BREAK {
						out(x.Pos(), x.End(), "", "delete break")
					}
					if x.Label == nil && x.Tok == token.CONTINUE {
						out(x.Pos(), x.End(), "break", "continue to break")
					}
				case *ast.IncDecStmt:
					if x.Tok == token.INC {
						out(x.Pos(), x.End(), text(x.X)+" += 2", "inc by 2")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							out(r.Pos(), r.End(), "!"+id.Name, "flip result")
						}
					}
				}
				return true
			})
		}
	}
	fmt.Fprintln(os.Stderr, "done")
}

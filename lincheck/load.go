package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked program under analysis together with its SSA form.
type Prog struct {
	Dir   string
	Fset  *token.FileSet
	Pkg   *packages.Package
	SSA   *ssa.Program
	SPkg  *ssa.Package
	Funcs []*ssa.Function // every source function of the package, closures included
}

// goEnv is the environment used for the go command: the one of the repository's own build.
func goEnv() []string {
	env := []string{}
	drop := map[string]bool{"GOFLAGS": true, "GOTOOLCHAIN": true, "GOPROXY": true, "GOWORK": true, "GOSUMDB": true}
	home := false
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		if drop[k] {
			continue
		}
		if k == "HOME" {
			home = true
		}
		env = append(env, e)
	}
	if !home {
		env = append(env, "HOME=/root")
	}
	return append(env, "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off")
}

// Load loads the package in dir the way the build does. overlay replaces file contents (self-tests only).
func Load(dir string, overlay map[string][]byte) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Env:     goEnv(),
		Overlay: overlay,
		ParseFile: func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, name, src, parser.AllErrors|parser.ParseComments)
			if f != nil {
				flatten(f)
			}
			return f, err
		},
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("load: %v", err)
	}
	var root *packages.Package
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load: %s: %v", p.PkgPath, e)
		}
		if p.Name == "linear" {
			root = p
		}
	}
	if root == nil {
		return nil, fmt.Errorf("load: package linear not found in %s", dir)
	}
	prog, spkgs := ssautil.Packages([]*packages.Package{root}, ssa.BuilderMode(0))
	if spkgs[0] == nil {
		return nil, fmt.Errorf("load: no SSA package")
	}
	prog.Build()
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Package() == spkgs[0] && fn.Blocks != nil {
			promote(fn)
		}
	}
	p := &Prog{Dir: dir, Fset: root.Fset, Pkg: root, SSA: prog, SPkg: spkgs[0]}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Package() == spkgs[0] && fn.Blocks != nil {
			p.Funcs = append(p.Funcs, fn)
		} else if fn.Package() == nil && fn.Object() != nil && fn.Object().Pkg() == root.Types && fn.Blocks != nil {
			p.Funcs = append(p.Funcs, fn) // wrappers of promoted methods
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return p, nil
}

// flatten turns statements that call a function literal (on the spot, or the only use of a local
// name for it; no parameters, no results, no return or defer of its own) into the blocks they are.
func flatten(f *ast.File) {
	plain := func(e ast.Expr) *ast.BlockStmt {
		lit, ok := ast.Unparen(e).(*ast.FuncLit)
		if !ok || lit.Type.Params.NumFields() != 0 || lit.Type.Results.NumFields() != 0 {
			return nil
		}
		flat := true
		ast.Inspect(lit.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
				flat = false
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "recover" {
					flat = false
				}
			}
			return flat
		})
		if !flat {
			return nil
		}
		return lit.Body
	}
	uses := map[string]int{}
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			uses[id.Name]++
		}
		return true
	})
	fix := func(l []ast.Stmt) {
		named := map[string]int{} // local names of function literals, by the place of their definition
		for i, s := range l {
			switch x := s.(type) {
			case *ast.AssignStmt:
				if x.Tok == token.DEFINE && len(x.Lhs) == 1 && len(x.Rhs) == 1 && plain(x.Rhs[0]) != nil {
					if id, ok := x.Lhs[0].(*ast.Ident); ok && uses[id.Name] == 2 {
						named[id.Name] = i
						continue
					}
				}
				if x.Tok == token.DEFINE {
					named = map[string]int{}
				}
			case *ast.DeclStmt:
				named = map[string]int{}
			case *ast.ExprStmt:
				call, ok := x.X.(*ast.CallExpr)
				if !ok || len(call.Args) != 0 {
					continue
				}
				if b := plain(call.Fun); b != nil {
					l[i] = b
				} else if id, ok := call.Fun.(*ast.Ident); ok {
					if j, ok := named[id.Name]; ok {
						l[i] = plain(l[j].(*ast.AssignStmt).Rhs[0])
						l[j] = &ast.EmptyStmt{Semicolon: l[j].Pos()}
					}
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			fix(x.List)
		case *ast.CaseClause:
			fix(x.Body)
		case *ast.CommClause:
			fix(x.Body)
		}
		return true
	})
}

// promote replaces the loads of variables that are stored to once, before every load, and only read
// by the closures that capture them, by the stored value.
func promote(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok {
				promoteCell(al)
			}
		}
	}
}

func promoteCell(al *ssa.Alloc) {
	var store *ssa.Store
	var loads []*ssa.UnOp
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != al || x.Val == al || store != nil {
				return
			}
			store = x
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return
			}
			loads = append(loads, x)
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == al && !onlyRead(x.Fn.(*ssa.Function).FreeVars[i]) {
					return
				}
			}
		case *ssa.DebugRef:
		default:
			return
		}
	}
	if store == nil {
		return
	}
	place := func(in ssa.Instruction) int {
		for i, x := range in.Block().Instrs {
			if x == in {
				return i
			}
		}
		return -1
	}
	for _, l := range loads {
		if l.Block() == store.Block() && place(l) < place(store) || !store.Block().Dominates(l.Block()) {
			continue
		}
		refs := l.Referrers()
		for _, r := range *refs {
			for _, op := range r.Operands(nil) {
				if *op == l {
					*op = store.Val
				}
			}
			if vr := store.Val.Referrers(); vr != nil {
				*vr = append(*vr, r)
			}
		}
		*refs = nil
	}
}

// onlyRead: the captured variable is loaded, or captured again and only read there.
func onlyRead(fv ssa.Value) bool {
	for _, r := range *fv.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == fv && !onlyRead(x.Fn.(*ssa.Function).FreeVars[i]) {
					return false
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (p *Prog) posn(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// fname renders a function name relative to the package: Type.Method or Func.
func fname(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return fname(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	if recv := fn.Signature.Recv(); recv != nil {
		return typeName(recv.Type()) + "." + fn.Name()
	}
	return fn.Name()
}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

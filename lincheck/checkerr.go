package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errFlow decides which dynamic types the errors of the package have, and what their texts are
// formatted from, by following values backwards through calls, returns, stores and phis.
type errFlow struct {
	c      *Ctx
	sites  map[*ssa.Function][]ssa.CallInstruction
	taken  map[*ssa.Function]bool // used as a value: called from elsewhere too
	stores map[types.Object][]ssa.Value
	liveB  map[*ssa.Function]map[*ssa.BasicBlock]bool
	memo   map[ssa.Value]*dynSet
}

type dynSet struct {
	types   map[string]types.Type
	unknown string
}

func (s *dynSet) add(o *dynSet) {
	for k, t := range o.types {
		s.types[k] = t
	}
	if s.unknown == "" {
		s.unknown = o.unknown
	}
}

func newErrFlow(c *Ctx) *errFlow {
	e := &errFlow{c: c, sites: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}, stores: map[types.Object][]ssa.Value{},
		liveB: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, memo: map[ssa.Value]*dynSet{}}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil {
						e.sites[f] = append(e.sites[f], ci)
					}
				}
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && *op != callee {
						e.taken[f] = true
					}
				}
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if f := fieldVar(fa.X.Type(), fa.Field); f != nil {
							e.stores[f] = append(e.stores[f], st.Val)
						}
					}
				}
			}
		}
	}
	return e
}

func fieldVar(t types.Type, i int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i)
	}
	return nil
}

// closed: every call of fn is a static call inside the package.
func (e *errFlow) closed(fn *ssa.Function) bool {
	return !ast.IsExported(fn.Name()) && !e.taken[fn] && fn.Signature.Recv() == nil && fn.Parent() == nil
}

func (e *errFlow) arg(fn *ssa.Function, p *ssa.Parameter, site ssa.CallInstruction) ssa.Value {
	for i, q := range fn.Params {
		if q == p && i < len(site.Common().Args) {
			return site.Common().Args[i]
		}
	}
	return nil
}

// boolOf: the constant a bool value always has.
func (e *errFlow) boolOf(v ssa.Value, depth int) (val, ok bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			b, ok := e.boolOf(x.X, depth)
			return !b, ok
		}
	case *ssa.Parameter:
		fn := x.Parent()
		if depth > 6 || !e.closed(fn) || len(e.sites[fn]) == 0 {
			return false, false
		}
		for i, s := range e.sites[fn] {
			a := e.arg(fn, x, s)
			b, ok := e.boolOf(a, depth+1)
			if !ok || i > 0 && b != val {
				return false, false
			}
			val = b
		}
		return val, true
	}
	return false, false
}

// live: the blocks that can be reached given the constant flags of the function.
func (e *errFlow) live(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	if l, ok := e.liveB[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if l[b] {
			return
		}
		l[b] = true
		if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if v, ok := e.boolOf(br.Cond, 0); ok {
				if v {
					visit(b.Succs[0])
				} else {
					visit(b.Succs[1])
				}
				return
			}
		}
		for _, s := range b.Succs {
			visit(s)
		}
	}
	visit(fn.Blocks[0])
	if fn.Recover != nil {
		visit(fn.Recover)
	}
	e.liveB[fn] = l
	return l
}

// dyn is the set of dynamic types an interface value can have (nil excluded).
func (e *errFlow) dyn(v ssa.Value) *dynSet {
	if s, ok := e.memo[v]; ok {
		return s
	}
	s := &dynSet{types: map[string]types.Type{}}
	e.memo[v] = s // cycles add nothing
	unk := func(why string) {
		if s.unknown == "" {
			s.unknown = why
		}
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		s.types[x.X.Type().String()] = x.X.Type()
	case *ssa.ChangeInterface:
		s.add(e.dyn(x.X))
	case *ssa.Const:
	case *ssa.Phi:
		for i, ed := range x.Edges {
			if e.live(x.Parent())[x.Block().Preds[i]] {
				s.add(e.dyn(ed))
			}
		}
	case *ssa.TypeAssert:
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			s.add(e.dyn(x.X))
		} else {
			s.types[x.AssertedType.String()] = x.AssertedType
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			s.add(e.results(t, x.Index))
		case *ssa.TypeAssert:
			if x.Index == 0 {
				s.add(e.dyn(&ssa.TypeAssert{X: t.X, AssertedType: t.AssertedType}))
			}
		default:
			unk("a value from " + x.Tuple.String())
		}
	case *ssa.Call:
		s.add(e.results(x, 0))
	case *ssa.Parameter:
		fn := x.Parent()
		if !e.closed(fn) {
			unk("the argument " + x.Name() + " of " + fname(fn))
			break
		}
		for _, site := range e.sites[fn] {
			if a := e.arg(fn, x, site); a != nil {
				s.add(e.dyn(a))
			}
		}
	case *ssa.FreeVar:
		for _, b := range e.bindings(x) {
			s.add(e.loads(b))
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			s.add(e.loads(x.X))
		} else {
			unk("an operation")
		}
	default:
		unk(fmt.Sprintf("a value of form %T", v))
	}
	return s
}

func (e *errFlow) bindings(x *ssa.FreeVar) []ssa.Value {
	var out []ssa.Value
	fn := x.Parent()
	for i, fv := range fn.FreeVars {
		if fv != x || fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					out = append(out, mc.Bindings[i])
				}
			}
		}
	}
	return out
}

// loads: what a variable (addressed by p) can hold.
func (e *errFlow) loads(p ssa.Value) *dynSet {
	s := &dynSet{types: map[string]types.Type{}}
	switch x := p.(type) {
	case *ssa.Alloc:
		e.allocStores(x, s, map[ssa.Value]bool{})
	case *ssa.FreeVar:
		for _, b := range e.bindings(x) {
			s.add(e.loads(b))
		}
	case *ssa.FieldAddr:
		if f := fieldVar(x.X.Type(), x.Field); f != nil && !f.Exported() {
			for _, v := range e.stores[f] {
				s.add(e.dyn(v))
			}
			return s
		}
		s.unknown = "a field"
	case *ssa.Global:
		for _, fn := range e.c.P.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == x {
						s.add(e.dyn(st.Val))
					}
				}
			}
		}
		if ast.IsExported(x.Name()) {
			s.unknown = "the exported variable " + x.Name()
		}
	default:
		s.unknown = fmt.Sprintf("memory addressed by %T", p)
	}
	return s
}

func (e *errFlow) allocStores(p ssa.Value, s *dynSet, seen map[ssa.Value]bool) {
	if seen[p] || p.Referrers() == nil {
		return
	}
	seen[p] = true
	for _, r := range *p.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr == p {
				s.add(e.dyn(y.Val))
			} else {
				s.unknown = "a variable whose address is stored"
			}
		case *ssa.MakeClosure:
			for i, b := range y.Bindings {
				if b == p {
					e.allocStores(y.Fn.(*ssa.Function).FreeVars[i], s, seen)
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			s.unknown = "a variable whose address escapes"
		}
	}
}

func (e *errFlow) results(call *ssa.Call, idx int) *dynSet {
	s := &dynSet{types: map[string]types.Type{}}
	if b, ok := call.Call.Value.(*ssa.Builtin); ok {
		s.unknown = "the result of " + b.Name()
		return s
	}
	fs := e.c.callees(call.Common())
	if len(fs) == 0 {
		if f := call.Call.StaticCallee(); f != nil {
			if f.Pkg != nil && (f.Pkg.Pkg.Path() == "fmt" && f.Name() == "Errorf" || f.Pkg.Pkg.Path() == "errors") {
				s.types["a plain "+f.String()+" error"] = types.NewPointer(types.NewNamed(types.NewTypeName(0, f.Pkg.Pkg, "error", nil), types.NewStruct(nil, nil), nil))
				return s
			}
			s.unknown = "the result of " + f.String()
			return s
		}
		if call.Call.IsInvoke() {
			s.unknown = "the result of the interface method " + call.Call.Method.Name()
			return s
		}
		s.unknown = "the result of a function value"
		return s
	}
	if call.Call.IsInvoke() {
		// an implementation from outside may return other errors: they are its own
	}
	for _, f := range fs {
		for _, b := range f.Blocks {
			if !e.live(f)[b] {
				continue
			}
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				s.add(e.dyn(r.Results[idx]))
			}
		}
	}
	return s
}

// ---- the texts

type callCtx []ssa.CallInstruction

// strOf: the constant string a value has in a calling context; miss is a parameter whose caller is needed.
func (e *errFlow) strOf(v ssa.Value, cx callCtx) (s string, miss *ssa.Parameter, ok bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value), nil, true
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			a, m, ok := e.strOf(x.X, cx)
			if !ok {
				return "", m, false
			}
			b, m, ok := e.strOf(x.Y, cx)
			return a + b, m, ok
		}
	case *ssa.Parameter:
		if len(cx) > 0 && cx[len(cx)-1].Common().StaticCallee() == x.Parent() {
			return e.strOf(e.arg(x.Parent(), x, cx[len(cx)-1]), cx[:len(cx)-1])
		}
		return "", x, false
	}
	return "", nil, false
}

// elems: the types of the elements of an argument list in a calling context.
func (e *errFlow) elems(v ssa.Value, cx callCtx) (ts []types.Type, miss *ssa.Parameter, ok bool) {
	switch x := v.(type) {
	case *ssa.Const:
		return nil, nil, x.IsNil()
	case *ssa.Slice:
		if x.Low != nil || x.High != nil {
			if h, isC := x.High.(*ssa.Const); !isC || x.Low != nil || x.Max != nil {
				_ = h
				return nil, nil, false
			}
		}
		al, isA := x.X.(*ssa.Alloc)
		if !isA {
			return nil, nil, false
		}
		arr, isArr := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !isArr {
			return nil, nil, false
		}
		n := int(arr.Len())
		if h, isC := x.High.(*ssa.Const); isC {
			if k := int(h.Int64()); k < n {
				n = k
			}
		}
		return e.stored(al, n, cx)
	case *ssa.MakeSlice:
		n, m, ok := e.intOf(x.Len, cx)
		if !ok {
			return nil, m, false
		}
		return e.stored(x, n, cx)
	case *ssa.Call:
		if b, isB := x.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" && len(x.Call.Args) == 2 {
			a, m, ok := e.elems(x.Call.Args[0], cx)
			if !ok {
				return nil, m, false
			}
			c, m, ok := e.elems(x.Call.Args[1], cx)
			return append(append([]types.Type{}, a...), c...), m, ok
		}
	case *ssa.Parameter:
		if len(cx) > 0 && cx[len(cx)-1].Common().StaticCallee() == x.Parent() {
			return e.elems(e.arg(x.Parent(), x, cx[len(cx)-1]), cx[:len(cx)-1])
		}
		return nil, x, false
	}
	return nil, nil, false
}

// stored: the types stored in n elements of a fresh array.
func (e *errFlow) stored(base ssa.Value, n int, cx callCtx) ([]types.Type, *ssa.Parameter, bool) {
	at := map[int]types.Type{}
	var any []types.Type
	ok := true
	var scan func(v ssa.Value)
	scan = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.IndexAddr:
				for _, q := range *y.Referrers() {
					st, isS := q.(*ssa.Store)
					if !isS || st.Addr != y {
						continue
					}
					mi, isM := st.Val.(*ssa.MakeInterface)
					var t types.Type
					if isM {
						t = mi.X.Type()
					} else if _, isI := st.Val.Type().Underlying().(*types.Interface); !isI {
						t = st.Val.Type()
					} else {
						ok = false
						continue
					}
					if k, isC := y.Index.(*ssa.Const); isC {
						at[int(k.Int64())] = t
					} else {
						any = append(any, t)
					}
				}
			case *ssa.Slice:
				if y.X == v && y != base {
					scan(y)
				}
			}
		}
	}
	scan(base)
	if !ok {
		return nil, nil, false
	}
	var out []types.Type
	for i := 0; i < n; i++ {
		t := at[i]
		if t == nil && len(any) > 0 {
			t = any[0]
			for _, u := range any {
				if !types.Identical(t, u) {
					return nil, nil, false
				}
			}
		}
		if t == nil {
			return nil, nil, false
		}
		out = append(out, t)
	}
	return out, nil, true
}

func (e *errFlow) intOf(v ssa.Value, cx callCtx) (int, *ssa.Parameter, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		return int(x.Int64()), nil, true
	case *ssa.BinOp:
		a, m, ok := e.intOf(x.X, cx)
		if !ok {
			return 0, m, false
		}
		b, m, ok := e.intOf(x.Y, cx)
		if !ok {
			return 0, m, false
		}
		switch x.Op {
		case token.ADD:
			return a + b, nil, true
		case token.SUB:
			return a - b, nil, true
		case token.MUL:
			return a * b, nil, true
		}
	case *ssa.Call:
		if b, isB := x.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" {
			ts, m, ok := e.elems(x.Call.Args[0], cx)
			return len(ts), m, ok
		}
	case *ssa.Parameter:
		if len(cx) > 0 && cx[len(cx)-1].Common().StaticCallee() == x.Parent() {
			return e.intOf(e.arg(x.Parent(), x, cx[len(cx)-1]), cx[:len(cx)-1])
		}
		return 0, x, false
	}
	return 0, nil, false
}

func zeroOf(t types.Type) interface{} {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			return "x"
		case b.Info()&types.IsBoolean != 0:
			return true
		case b.Info()&types.IsInteger != 0:
			return 1
		case b.Info()&types.IsFloat != 0:
			return 1.5
		}
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		return []int{1}
	}
	return struct{ X int }{1}
}

// texts checks every formatting call in every calling context.
func (e *errFlow) texts() {
	formats := map[string]int{"fmt.Sprintf": 0, "fmt.Errorf": 0}
	for _, fn := range e.c.P.Funcs {
		live := e.live(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !live[b] {
					continue
				}
				f := call.Call.StaticCallee()
				if f == nil || f.Pkg == nil || f.Blocks != nil && e.c.inPkg(f) {
					continue
				}
				if _, is := formats[f.Pkg.Pkg.Path()+"."+f.Name()]; is {
					e.text(call, nil, map[*ssa.Function]bool{fn: true})
				}
			}
		}
	}
}

func (e *errFlow) text(call *ssa.Call, cx callCtx, seen map[*ssa.Function]bool) {
	// context: outermost call first
	pat, m1, ok1 := e.strOf(call.Call.Args[0], cx)
	ts, m2, ok2 := e.elems(call.Call.Args[1], cx)
	top := call.Parent()
	pos := call.Pos()
	if len(cx) > 0 {
		top = cx[0].Parent()
		pos = cx[0].Pos()
	}
	where := "text of " + fname(top) + "→" + fname(call.Parent())
	if ok1 && ok2 {
		var vs []interface{}
		for _, t := range ts {
			vs = append(vs, zeroOf(t))
		}
		txt := fmt.Sprintf(pat, vs...)
		if strings.Contains(txt, "%!") {
			e.c.bad("text", where, pos, "the text is formatted from %q with arguments %v: it reads %q", pat, ts, txt)
		} else {
			e.c.ok("text", where+" "+strings.TrimSpace(pat), pos)
		}
		return
	}
	if !ok1 && m1 == nil || !ok2 && m2 == nil || len(cx) > 8 {
		e.c.undecided("text", where, pos, "the format or its arguments are not constant")
		return
	}
	var p *ssa.Parameter
	if !ok1 {
		p = m1
	} else {
		p = m2
	}
	fn := p.Parent()
	if !e.closed(fn) {
		e.c.undecided("text", where, pos, "the format or its arguments come from the caller of %s", fname(fn))
		return
	}
	for _, s := range e.sites[fn] {
		g := s.Parent()
		if seen[g] || !e.live(g)[s.Block()] {
			continue
		}
		seen[g] = true
		e.text(call, append(callCtx{s}, cx...), seen)
		delete(seen, g)
	}
}

// ---- the check

func checkErrors(c *Ctx) {
	c.Explain = "Every panic and every error result of the package: its dynamic types, followed backwards through calls, returns, variables, fields and phis (branches on flags that are constant at every call pruned), are library errors; " +
		"every text is formatted with the arguments its format asks for, in every calling context; the status of each error type raised is its own. " +
		"The contents of the errors (status, rejected index or shape, bounds) are derived by the gated value-flow analysis and compared with the request."
	c.Floor = 1800
	c.Assume = append(c.Assume, "errors of user-written implementations and visitors are their own", "float arithmetic is treated as real arithmetic", "integers do not overflow")
	e := newErrFlow(c)
	lib := c.iface("LinearMathError")
	if lib == nil {
		c.bad("anchor", "LinearMathError", token.NoPos, "the library error interface is gone")
		return
	}
	errT := types.Universe.Lookup("error").Type()
	raised := map[string]types.Type{}
	judge := func(rule, what string, pos token.Pos, s *dynSet) {
		var bad []string
		for k, t := range s.types {
			if types.Implements(t, lib) {
				raised[k] = t
				continue
			}
			bad = append(bad, k)
		}
		sort.Strings(bad)
		switch {
		case len(bad) > 0:
			c.bad(rule, what, pos, "can be %s, which is not a library error", strings.Join(bad, " or "))
		case s.unknown != "":
			c.undecided(rule, what, pos, "depends on %s", s.unknown)
		default:
			c.ok(rule, what, pos)
		}
	}
	for _, fn := range c.P.Funcs {
		if fn.Synthetic != "" {
			continue
		}
		live := e.live(fn)
		np := 0
		for _, b := range fn.Blocks {
			if !live[b] {
				continue
			}
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Panic:
					np++
					judge("panic", fmt.Sprintf("%s panic %d", fname(fn), np), x.Pos(), e.dyn(x.X))
				case *ssa.Return:
					for i, r := range x.Results {
						if types.Identical(r.Type(), errT) {
							judge("error", fmt.Sprintf("%s error result %d at %s", fname(fn), i, "return"), x.Pos(), e.dyn(r))
						}
					}
				}
			}
		}
	}
	e.texts()
	e.statuses(lib, raised)
	specCheck(c, "C20")
	c.Found = 0
}

// statuses: every error type raised has a constant exported status of its own; only a type that
// embeds another one may share its status.
func (e *errFlow) statuses(lib *types.Interface, raised map[string]types.Type) {
	c := e.c
	exported := map[int64]string{}
	sc := c.P.Pkg.Types.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && k.Exported() {
			if k.Val().Kind() != constant.Int {
				continue
			}
			if v, exact := constant.Int64Val(k.Val()); exact {
				if o, dup := exported[v]; !dup || len(o) > len(n) {
					exported[v] = n
				}
			}
		}
	}
	type st struct {
		name string
		t    types.Type
		v    int64
	}
	var all []st
	var keys []string
	for k := range raised {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		t := raised[k]
		obj, _, _ := types.LookupFieldOrMethod(t, true, c.P.Pkg.Types, "Status")
		m, ok := obj.(*types.Func)
		var fn *ssa.Function
		if ok {
			fn = c.P.SSA.FuncValue(m)
		}
		if fn == nil || fn.Blocks == nil {
			c.undecided("status", typeName(t), token.NoPos, "no Status method in the package")
			continue
		}
		val, n, konst := int64(0), 0, true
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if k, ok := r.Results[0].(*ssa.Const); ok && (n == 0 || k.Int64() == val) {
					val = k.Int64()
					n++
				} else {
					konst = false
				}
			}
		}
		switch {
		case !konst || n == 0:
			c.undecided("status", typeName(t), fn.Pos(), "the status is not a constant")
		case val == 0:
			c.bad("status", typeName(t), fn.Pos(), "the status of an error is SUCCESS")
		case exported[val] == "":
			c.bad("status", typeName(t), fn.Pos(), "the status %d is none of the exported status codes", val)
		default:
			c.ok("status", typeName(t)+" "+exported[val], fn.Pos())
			all = append(all, st{typeName(t), t, val})
		}
	}
	for i, a := range all {
		for _, b := range all[i+1:] {
			if a.v == b.v && !embeds(a.t, b.t) && !embeds(b.t, a.t) {
				c.bad("status-own", a.name+" and "+b.name, token.NoPos, "two unrelated error types have the same status %d", a.v)
			}
		}
	}
}

func embeds(a, b types.Type) bool {
	if p, ok := a.(*types.Pointer); ok {
		a = p.Elem()
	}
	if p, ok := b.(*types.Pointer); ok {
		b = p.Elem()
	}
	if types.Identical(a, b) {
		return true
	}
	s, ok := a.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() && embeds(s.Field(i).Type(), b) {
			return true
		}
	}
	return false
}

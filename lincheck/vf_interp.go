package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"
)

// Interp is the value-flow analysis proper: it walks the typed syntax tree of a function once,
// structurally, keeping for every variable a gated closed form and for every array a log of
// quantified writes. Branches are merged by gating, loops are summarised (never unrolled),
// package functions are inlined at their call sites.
type Interp struct {
	permFresh int
	ordVers   map[string]*orderInfo // arrays that loops put in order, or fail to
	pairVers  map[string]*pairInfo
	verSeq    map[string]int
	solveVers map[string]bool // arrays that loops inside vpSolving leave behind
	solveKeys map[string]bool
	solved    map[string]*solveInfo // arrays that substitutions settle
	solving   bool                  // loops that solve triangular systems are looked for
	rough     map[string]bool       // loops that are no plain array updates
	wantOrder bool
	hints     []string        // what loops that fail to put arrays in order do
	order     bool            // loops that put arrays in order are looked for
	permNos   map[string]bool // versions of arrays known not to be permutations
	wantPerm  bool            // look for arrays that are not permutations
	entered   map[string]bool // functions analysed
	p         *Prog
	info      *types.Info
	decls     map[*types.Func]*ast.FuncDecl

	st      *State
	fr      *frame
	cells   map[string]*Cell
	objs    map[string]*VObj
	loops   []*loopRun
	linfo   map[string]*loopInfo
	effects []*Effect
	stack   []*types.Func
	keys    []string
	posn    []token.Pos

	intr     map[string]func(in *Interp, call *ast.CallExpr, args []Value) Value
	simpMemo map[simpKey]*Term
	steps    int
	deadline time.Time
	trace    bool
	proven   int // index and pointer obligations settled
	globals  map[*types.Var]Value
	initOf   map[*types.Var]ast.Expr
	assume   []*Term
	callSeen map[string]bool
	tainted  string
	accMode  bool
	coarse   int
	runs     int // inside vpRun
	errVals  int

	peel       map[string]bool // loops whose first iteration is analysed separately
	taintLoops []string        // the loops around the first unknown store
}

type frame struct {
	key   string
	vars  map[types.Object]*Cell
	up    *frame
	rets  []exitS
	res   []*Cell
	sig   *types.Signature
	brk   []*brkCtx
	plain []*Cell
}

type brkCtx struct {
	loop  bool
	brks  []*State
	conts []*State
}

type exitS struct {
	st   *State
	vals TupleV
}

// Effect is something the analysed code may do at a program point.
type Effect struct {
	kind  string // panic, fault, write, event, check
	cond  *Term
	bs    []binder
	facts *Facts
	pos   token.Pos
	fn    string
	msg   string
	obj   *VObj
	oidx  []*Term
	idx   *Term
	vals  []Value
	libT  types.Type
	unkn  bool
	st    *State // where the value of a panic was computed
}

type loopRun struct {
	key   string
	bound map[*VObj]int
	havoc map[*VObj]bool
	reads []readLog
}

type budgetErr struct{}
type restartErr struct{}
type analysisErr struct{ msg string }

func (in *Interp) tick() {
	in.steps++
	if in.steps&15 == 0 && time.Now().After(in.deadline) {
		panic(budgetErr{})
	}
}

func (in *Interp) where() string {
	if len(in.posn) == 0 {
		return "-"
	}
	return in.p.posn(in.posn[len(in.posn)-1])
}

func (in *Interp) key() string { return strings.Join(in.keys, "/") }

func (in *Interp) fail(n ast.Node, f string, a ...interface{}) {
	panic(analysisErr{in.p.posn(n.Pos()) + ": " + fmt.Sprintf(f, a...)})
}

// ---- sorts, zero values

func sortOf(t types.Type) (Sort, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt, true
		case u.Info()&types.IsFloat != 0:
			return SFloat, true
		case u.Info()&types.IsBoolean != 0:
			return SBool, true
		}
	}
	return 0, false
}

func (in *Interp) unkOf(t types.Type, why string) Value {
	if s, ok := sortOf(t); ok {
		return Unk(s, why)
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		f := make([]Value, st.NumFields())
		for i := range f {
			f[i] = in.unkOf(st.Field(i).Type(), why)
		}
		return StructV{t, f}
	}
	return UnkV{why}
}

func (in *Interp) zero(t types.Type) Value {
	if s, ok := sortOf(t); ok {
		return zeroTerm(s)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = in.zero(u.Field(i).Type())
		}
		return StructV{t, f}
	case *types.Slice:
		return SliceV{obj: in.emptyObj(u.Elem()), off: Int(0), len: Int(0), cap: Int(0), isn: tTrue}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return StrV{""}
		}
		if u.Info()&types.IsComplex != 0 {
			return StructV{t, []Value{zeroTerm(SFloat), zeroTerm(SFloat)}}
		}
	case *types.Array:
		return UnkV{"array"}
	}
	return NilV{}
}

func (in *Interp) emptyObj(elem types.Type) *VObj {
	return in.obj("nil:"+elem.String(), elem, false)
}

func (in *Interp) obj(key string, elem types.Type, pre bool) *VObj {
	if o, ok := in.objs[key]; ok {
		return o
	}
	o := &VObj{key: key, typ: elem, pre: pre}
	o.init = func(oidx []*Term, idx *Term) Value { return in.zero(elem) }
	for _, l := range in.loops {
		o.born = append(o.born, l.key)
	}
	in.objs[key] = o
	return o
}

func (in *Interp) cell(key string, t types.Type) *Cell {
	if c, ok := in.cells[key]; ok {
		return c
	}
	c := &Cell{key: key, typ: t}
	in.cells[key] = c
	return c
}

// loopSyms are the iteration symbols of the loops being analysed.
func (in *Interp) loopSyms() []*Term {
	var out []*Term
	for _, l := range in.loops {
		out = append(out, Sym("k@"+l.key, SInt))
	}
	return out
}

func (in *Interp) allocSlice(site string, elem types.Type, n, c *Term) SliceV {
	key := in.key() + "|" + site
	return SliceV{obj: in.obj(key, elem, false), oidx: in.loopSyms(), off: Int(0), len: n, cap: c, isn: tFalse}
}

func (in *Interp) allocCell(site string, t types.Type, v Value) PtrV {
	if in.coarse > 0 && len(in.loops) > 0 {
		// one object for every iteration
		o := in.obj("new:"+in.key()+"|"+site, t, false)
		in.writeMem(o, in.loopSyms(), Int(0), nil, v, token.NoPos)
		return PtrV{Place{obj: o, oidx: in.loopSyms(), idx: Int(0)}}
	}
	c := in.cell("heap:"+in.key()+"|"+site, t)
	in.st.vars[c] = v
	return PtrV{Place{cell: c}}
}

// ---- effects

func (in *Interp) emit(e *Effect) *Effect {
	if e.cond == nil {
		e.cond = in.st.live
	}
	e.facts = in.st.facts
	if e.fn == "" && len(in.stack) > 0 {
		e.fn = funcName(in.stack[len(in.stack)-1])
	}
	in.effects = append(in.effects, e)
	return e
}

func funcName(f *types.Func) string {
	if r := f.Type().(*types.Signature).Recv(); r != nil {
		return typeName(r.Type()) + "." + f.Name()
	}
	return f.Name()
}

// require records a runtime obligation: c must hold here.
func (in *Interp) require(c *Term, pos token.Pos, what string) {
	if c == tTrue || in.st.dead() {
		in.proven++
		return
	}
	d := Decide(in.st.facts, c)
	if d == tTrue {
		in.proven++
		return
	}
	in.emit(&Effect{kind: "fault", cond: And(in.st.live, Not(d)), pos: pos, msg: what})
	if d == tFalse {
		in.st.live = tFalse
		return
	}
	in.st.facts = in.st.facts.with(d)
}

func (in *Interp) taint(why string) {
	if in.tainted == "" {
		in.tainted = in.where() + ": " + why
		in.taintLoops = nil
		for _, l := range in.loops {
			in.taintLoops = append(in.taintLoops, l.key)
		}
	}
}

// ---- states

func (in *Interp) fork(c *Term) *State {
	n := in.st.clone()
	n.live = And(in.st.live, c)
	n.facts = in.st.facts.with(c)
	return n
}

// join merges the two sides of a branch on c taken from base.
func (in *Interp) join(c *Term, a, b, base *State) *State {
	if a.dead() {
		return b
	}
	if b.dead() {
		return a
	}
	n := in.mergeSt(base.facts, c, a, b)
	if a.live == And(base.live, c) && b.live == And(base.live, Not(c)) {
		n.live = base.live
		n.facts = base.facts
	} else {
		n.live = Or(a.live, b.live)
		if n.live == base.live {
			n.facts = base.facts
		} else {
			n.facts = base.facts.with(in.relCond(base.facts, n.live))
		}
	}
	return n
}

// relCond drops from a condition what the facts already imply.
func (in *Interp) relCond(f *Facts, c *Term) *Term {
	known := map[*Term]bool{}
	for g := f; g != nil; g = g.up {
		known[g.t] = true
	}
	var rel func(t *Term) *Term
	rel = func(t *Term) *Term {
		if known[t] {
			return tTrue
		}
		if known[Not(t)] {
			return tFalse
		}
		switch t.op {
		case OAnd:
			var xs []*Term
			for _, x := range t.args {
				xs = append(xs, rel(x))
			}
			return And(xs...)
		case OOr:
			var xs []*Term
			for _, x := range t.args {
				xs = append(xs, rel(x))
			}
			return Or(xs...)
		}
		return t
	}
	return rel(c)
}

func (in *Interp) mergeSt(f *Facts, c *Term, a, b *State) *State {
	n := &State{vars: make(map[*Cell]Value, len(a.vars)), mem: make(map[*VObj]*Content, len(a.mem)), live: Or(a.live, b.live), facts: f}
	for k, va := range a.vars {
		if vb, ok := b.vars[k]; ok {
			n.vars[k] = in.gate(f, c, va, vb)
		} else {
			n.vars[k] = va
		}
	}
	for k, vb := range b.vars {
		if _, ok := a.vars[k]; !ok {
			n.vars[k] = vb
		}
	}
	for o, ca := range a.mem {
		if cb, ok := b.mem[o]; ok {
			n.mem[o] = mergeContent(c, ca, cb)
		} else {
			n.mem[o] = ca
		}
	}
	for o, cb := range b.mem {
		if _, ok := a.mem[o]; !ok {
			n.mem[o] = cb
		}
	}
	return n
}

// gate is mkCond with recognition of minima and maxima.
func (in *Interp) gate(f *Facts, c *Term, a, b Value) Value {
	if sameV(a, b) {
		return a
	}
	if x, ok := a.(*Term); ok {
		if y, ok := b.(*Term); ok && x.sort == SInt && y.sort == SInt {
			return in.ite(f, c, x, y)
		}
	}
	return mkCond(c, a, b)
}

// ---- statements

func (in *Interp) block(list []ast.Stmt) {
	for _, s := range list {
		if in.st.dead() {
			return
		}
		in.stmt(s)
	}
}

func (in *Interp) stmt(s ast.Stmt) {
	in.tick()
	in.posn = append(in.posn, s.Pos())
	defer func() { in.posn = in.posn[:len(in.posn)-1] }()
	switch x := s.(type) {
	case *ast.BlockStmt:
		in.block(x.List)
	case *ast.ExprStmt:
		in.exprMulti(x.X)
	case *ast.AssignStmt:
		in.assign(x)
	case *ast.IncDecStmt:
		pl, t := in.place(x.X)
		v := in.load(pl, t, x.Pos())
		if t, ok := v.(*Term); ok {
			d := int64(1)
			if x.Tok == token.DEC {
				d = -1
			}
			in.store(pl, AddC(t, d), x.Pos())
		} else {
			in.store(pl, UnkV{"incdec"}, x.Pos())
		}
	case *ast.DeclStmt:
		gd, ok := x.Decl.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			return
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 1 && len(vs.Names) > 1 {
				tv, _ := in.exprMulti(vs.Values[0]).(TupleV)
				for i, n := range vs.Names {
					if i < len(tv) {
						in.define(n, tv[i])
					}
				}
				continue
			}
			for i, n := range vs.Names {
				o := in.info.Defs[n]
				if o == nil {
					continue
				}
				if i < len(vs.Values) {
					in.define(n, in.exprTo(vs.Values[i], o.Type()))
				} else {
					in.define(n, in.zero(o.Type()))
				}
			}
		}
	case *ast.IfStmt:
		if x.Init != nil {
			in.stmt(x.Init)
			if in.st.dead() {
				return
			}
		}
		c := in.cond(x.Cond)
		if in.st.dead() {
			return
		}
		in.branch(c, func() { in.block(x.Body.List) }, func() {
			if x.Else != nil {
				in.stmt(x.Else)
			}
		})
	case *ast.ForStmt:
		in.forStmt(x)
	case *ast.RangeStmt:
		in.rangeStmt(x)
	case *ast.SwitchStmt:
		in.switchStmt(x)
	case *ast.ReturnStmt:
		in.returnStmt(x)
	case *ast.BranchStmt:
		if x.Label != nil {
			in.fail(x, "labelled branch")
		}
		fr := in.fr
		switch x.Tok {
		case token.BREAK:
			b := fr.brk[len(fr.brk)-1]
			b.brks = append(b.brks, in.st)
		case token.CONTINUE:
			for i := len(fr.brk) - 1; i >= 0; i-- {
				if fr.brk[i].loop {
					fr.brk[i].conts = append(fr.brk[i].conts, in.st)
					break
				}
			}
		default:
			in.fail(x, "branch %v", x.Tok)
		}
		in.st = in.st.clone()
		in.st.live = tFalse
	case *ast.EmptyStmt:
	default:
		in.fail(s, "statement %T", s)
	}
}

// branch analyses both sides of a condition and merges them by gating.
func (in *Interp) branch(c *Term, then, els func()) {
	base := in.st
	c = Decide(base.facts, in.simpT(base.facts, c))
	if c == tTrue {
		then()
		return
	}
	if c == tFalse {
		els()
		return
	}
	in.st = in.forkFrom(base, c)
	then()
	a := in.st
	in.st = in.forkFrom(base, Not(c))
	els()
	b := in.st
	in.st = in.join(c, a, b, base)
}

func (in *Interp) forkFrom(s *State, c *Term) *State {
	n := s.clone()
	n.live = And(s.live, c)
	n.facts = s.facts.with(c)
	return n
}

func (in *Interp) switchStmt(x *ast.SwitchStmt) {
	if x.Init != nil {
		in.stmt(x.Init)
	}
	var tag Value
	var tagT types.Type
	if x.Tag != nil {
		tag = in.expr(x.Tag)
		tagT = in.typeOf(x.Tag)
	}
	ctx := &brkCtx{}
	fr := in.fr
	fr.brk = append(fr.brk, ctx)
	base := in.st
	var def *ast.CaseClause
	var rec func(i int)
	rec = func(i int) {
		for i < len(x.Body.List) && x.Body.List[i].(*ast.CaseClause).List == nil {
			def = x.Body.List[i].(*ast.CaseClause)
			i++
		}
		if i == len(x.Body.List) {
			if def != nil {
				in.block(def.Body)
			}
			return
		}
		cc := x.Body.List[i].(*ast.CaseClause)
		c := tFalse
		for _, e := range cc.List {
			if tag == nil {
				c = Or(c, in.cond(e))
			} else {
				c = Or(c, in.valEq(tag, in.exprTo(e, tagT)))
			}
		}
		in.branch(c, func() { in.block(cc.Body) }, func() { rec(i + 1) })
	}
	rec(0)
	fr.brk = fr.brk[:len(fr.brk)-1]
	for _, b := range ctx.brks {
		in.st = in.joinExits(base, b, in.st)
	}
}

// joinExits merges two mutually exclusive states below base.
func (in *Interp) joinExits(base, a, b *State) *State {
	if a.dead() {
		return b
	}
	if b.dead() {
		return a
	}
	c := in.relCond(base.facts, a.live)
	n := in.mergeSt(base.facts, c, a, b)
	if n.live != base.live {
		n.facts = base.facts.with(in.relCond(base.facts, n.live))
	}
	return n
}

func (in *Interp) returnStmt(x *ast.ReturnStmt) {
	fr := in.fr
	var vals TupleV
	if len(x.Results) == 0 {
		for _, c := range fr.res {
			vals = append(vals, in.st.vars[c])
		}
	} else if len(x.Results) == 1 && fr.sig.Results().Len() > 1 {
		tv, ok := in.exprMulti(x.Results[0]).(TupleV)
		tt, _ := in.typeOf(x.Results[0]).(*types.Tuple)
		for i := 0; i < fr.sig.Results().Len(); i++ {
			if ok && i < len(tv) && tt != nil {
				vals = append(vals, in.convTo(tv[i], tt.At(i).Type(), fr.sig.Results().At(i).Type()))
			} else {
				vals = append(vals, UnkV{"tuple"})
			}
		}
	} else {
		for i, e := range x.Results {
			vals = append(vals, in.exprTo(e, fr.sig.Results().At(i).Type()))
		}
	}
	if in.st.dead() {
		return
	}
	fr.rets = append(fr.rets, exitS{in.st, vals})
	in.st = in.st.clone()
	in.st.live = tFalse
}

func (in *Interp) define(id *ast.Ident, v Value) {
	if id.Name == "_" {
		return
	}
	o := in.info.Defs[id]
	if o == nil {
		return
	}
	c := in.cell(in.key()+"|"+in.p.posn(id.Pos())+"."+id.Name+fmt.Sprint(in.p.Fset.Position(id.Pos()).Column), o.Type())
	in.fr.vars[o] = c
	in.fr.plain = append(in.fr.plain, c)
	in.st.vars[c] = v
}

func (in *Interp) assign(x *ast.AssignStmt) {
	if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
		// op=
		pl, t := in.place(x.Lhs[0])
		a := in.load(pl, t, x.Pos())
		b := in.exprTo(x.Rhs[0], t)
		if in.st.dead() {
			return
		}
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR,
			token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR}[x.Tok]
		in.store(pl, in.arith(op, a, b, t, x.Pos()), x.Pos())
		return
	}
	var vals []Value
	var froms []types.Type
	if len(x.Rhs) == 1 && len(x.Lhs) > 1 {
		tv, ok := in.exprMulti(x.Rhs[0]).(TupleV)
		tt, _ := in.typeOf(x.Rhs[0]).(*types.Tuple)
		for i := range x.Lhs {
			if ok && i < len(tv) {
				vals = append(vals, tv[i])
			} else {
				vals = append(vals, UnkV{"tuple"})
			}
			if tt != nil {
				froms = append(froms, tt.At(i).Type())
			} else {
				froms = append(froms, nil)
			}
		}
	} else {
		// destinations are evaluated after the sources here; index expressions have no effects
		for i, e := range x.Rhs {
			var lt types.Type
			if id, ok := x.Lhs[i].(*ast.Ident); ok && id.Name == "_" {
				lt = in.typeOf(e)
			} else if x.Tok == token.DEFINE && in.info.Defs[x.Lhs[i].(*ast.Ident)] != nil {
				lt = in.info.Defs[x.Lhs[i].(*ast.Ident)].Type()
			} else {
				lt = in.typeOf(x.Lhs[i])
			}
			vals = append(vals, in.exprTo(e, lt))
			froms = append(froms, lt)
		}
	}
	if in.st.dead() {
		return
	}
	for i, l := range x.Lhs {
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				continue
			}
			if x.Tok == token.DEFINE && in.info.Defs[id] != nil {
				in.define(id, vals[i])
				continue
			}
		}
		pl, t := in.place(l)
		v := vals[i]
		if froms[i] != nil {
			v = in.convTo(v, froms[i], t)
		}
		in.store(pl, v, x.Pos())
	}
}

// ---- places

func (in *Interp) lookup(o types.Object) *Cell {
	for f := in.fr; f != nil; f = f.up {
		if c, ok := f.vars[o]; ok {
			return c
		}
	}
	return nil
}

// place evaluates an addressable expression; t is its type.
func (in *Interp) place(e ast.Expr) (Value, types.Type) {
	t := in.typeOf(e)
	switch x := e.(type) {
	case *ast.ParenExpr:
		return in.place(x.X)
	case *ast.Ident:
		o := in.info.Uses[x]
		if o == nil {
			o = in.info.Defs[x]
		}
		if c := in.lookup(o); c != nil {
			return PtrV{Place{cell: c}}, t
		}
		if v, ok := o.(*types.Var); ok && v.Parent() == in.p.Pkg.Types.Scope() {
			c := in.cell("global:"+v.Name(), v.Type())
			if _, ok := in.st.vars[c]; !ok {
				in.st.vars[c] = in.global(v)
			}
			return PtrV{Place{cell: c}}, t
		}
		return UnkV{"variable " + x.Name}, t
	case *ast.IndexExpr:
		base := in.expr(x.X)
		idx, ok := in.expr(x.Index).(*Term)
		if !ok {
			return UnkV{"index"}, t
		}
		return in.elemPlace(base, idx, x), t
	case *ast.StarExpr:
		return in.expr(x.X), t
	case *ast.SelectorExpr:
		sel := in.info.Selections[x]
		if sel == nil {
			return UnkV{"selector"}, t
		}
		var base Value
		if _, isPtr := in.typeOf(x.X).Underlying().(*types.Pointer); isPtr {
			base = in.expr(x.X)
		} else {
			base, _ = in.place(x.X)
		}
		return in.fieldPlace(base, in.typeOf(x.X), sel.Index(), x.Pos()), t
	case *ast.CompositeLit:
		return in.allocCell(in.sitePos(e), t, in.expr(e)), t
	}
	// not addressable: a temporary
	v := in.expr(e)
	return in.allocCell(in.sitePos(e)+"tmp", t, v), t
}

func (in *Interp) sitePos(n ast.Node) string {
	p := in.p.Fset.Position(n.Pos())
	return fmt.Sprintf("%s:%d:%d", in.p.posn(n.Pos()), p.Column, n.End()-n.Pos())
}

func (in *Interp) elemPlace(base Value, idx *Term, x *ast.IndexExpr) Value {
	switch s := base.(type) {
	case SliceV:
		in.require(And(Ge0(idx), Lt(idx, s.len)), x.Pos(), "index out of range: "+exprString(x))
		return PtrV{Place{obj: s.obj, oidx: s.oidx, idx: Add(s.off, idx)}}
	case CondV:
		return in.splitV(s, func(v Value) Value { return in.elemPlace(v, idx, x) })
	}
	return UnkV{"indexed value"}
}

// splitV evaluates f on both alternatives of a conditional value.
func (in *Interp) splitV(s CondV, f func(Value) Value) Value {
	c := Decide(in.st.facts, s.c)
	if c == tTrue {
		return f(s.a)
	}
	if c == tFalse {
		return f(s.b)
	}
	base := in.st
	in.st = in.forkFrom(base, c)
	in.keys = append(in.keys, "+")
	va := f(s.a)
	a := in.st
	in.st = in.forkFrom(base, Not(c))
	in.keys[len(in.keys)-1] = "-"
	vb := f(s.b)
	in.keys = in.keys[:len(in.keys)-1]
	b := in.st
	in.st = in.join(c, a, b, base)
	if a.dead() {
		return vb
	}
	if b.dead() {
		return va
	}
	return in.gate(base.facts, c, va, vb)
}

func (in *Interp) fieldPlace(base Value, t types.Type, index []int, pos token.Pos) Value {
	for _, i := range index {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		switch b := base.(type) {
		case PtrV:
			n := b.pl
			n.path = append(append([]int{}, n.path...), i)
			base = PtrV{n}
		case NilV:
			in.require(tFalse, pos, "nil pointer dereference")
			return UnkV{"nil"}
		case CondV:
			tt, ii := t, i
			base = in.splitV(b, func(v Value) Value { return in.fieldPlace(v, tt, []int{ii}, pos) })
		default:
			return UnkV{"field of unknown"}
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return UnkV{"field of non struct"}
		}
		t = st.Field(i).Type()
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr && len(index) > 1 {
			base = in.load(base, t, pos)
		}
		index = index[1:]
		if len(index) > 0 {
			return in.fieldPlace(base, t, index, pos)
		}
	}
	return base
}

// load reads a place.
func (in *Interp) load(pl Value, t types.Type, pos token.Pos) Value {
	switch p := pl.(type) {
	case PtrV:
		return in.loadPl(p.pl, t)
	case NilV:
		in.require(tFalse, pos, "nil pointer dereference")
		return in.unkOf(t, "nil")
	case CondV:
		return in.splitV(p, func(v Value) Value { return in.load(v, t, pos) })
	}
	return in.unkOf(t, "unknown place")
}

func (in *Interp) loadPl(p Place, t types.Type) Value {
	var v Value
	if p.cell != nil {
		var ok bool
		v, ok = in.st.vars[p.cell]
		if !ok {
			return in.unkOf(t, "dead cell "+p.cell.key)
		}
	} else {
		v = in.readMem(p.obj, p.oidx, p.idx)
	}
	for _, i := range p.path {
		v = in.project(v, i)
	}
	if u, ok := v.(UnkV); ok {
		return in.unkOf(t, u.why)
	}
	return v
}

func (in *Interp) project(v Value, i int) Value {
	switch x := v.(type) {
	case StructV:
		return x.f[i]
	case CondV:
		return in.gate(in.st.facts, x.c, in.project(x.a, i), in.project(x.b, i))
	}
	return UnkV{"projection"}
}

func inject(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case StructV:
		f := append([]Value{}, x.f...)
		f[path[0]] = inject(f[path[0]], path[1:], nv)
		return StructV{x.typ, f}
	case CondV:
		return mkCond(x.c, inject(x.a, path, nv), inject(x.b, path, nv))
	}
	return UnkV{"inject"}
}

// store writes a place.
func (in *Interp) store(pl Value, v Value, pos token.Pos) {
	if in.st.dead() {
		return
	}
	switch p := pl.(type) {
	case PtrV:
		if p.pl.cell != nil {
			old := in.st.vars[p.pl.cell]
			in.st.vars[p.pl.cell] = inject(old, p.pl.path, v)
			if strings.HasPrefix(p.pl.cell.key, "in:") {
				in.emit(&Effect{kind: "write", pos: pos, msg: p.pl.cell.key})
			}
			return
		}
		if len(p.pl.path) > 0 {
			v = inject(in.readMem(p.pl.obj, p.pl.oidx, p.pl.idx), p.pl.path, v)
		}
		in.writeMem(p.pl.obj, p.pl.oidx, p.pl.idx, nil, v, pos)
	case NilV:
		in.require(tFalse, pos, "nil pointer dereference")
	case CondV:
		in.splitV(p, func(x Value) Value { in.store(x, v, pos); return nil })
	default:
		in.taint("store to an unknown place")
	}
}

func (in *Interp) writeMem(obj *VObj, oidx []*Term, idx *Term, bs []binder, v Value, pos token.Pos) {
	c := in.st.mem[obj]
	if c == nil {
		c = &Content{}
	}
	if pv, ok := v.(PtrV); ok && pv.pl.cell != nil && strings.HasPrefix(pv.pl.cell.key, "heap:") && len(in.loops) > 0 {
		v = UnkV{"pointer allocated in a loop"}
	}
	if iv, ok := v.(IfaceV); ok && len(in.loops) > 0 {
		if pv, ok := iv.v.(PtrV); ok && pv.pl.cell != nil && strings.HasPrefix(pv.pl.cell.key, "heap:") {
			v = UnkV{"pointer allocated in a loop"}
		}
	}
	n := &Content{ver: c.ver, vargs: c.vargs, gen: c.gen, alt: c.alt, altc: c.altc, perm: c.perm, ord: c.ord, permNo: c.permNo, havoc: c.havoc, lvl: c.lvl, regs: append(c.regs[:len(c.regs):len(c.regs)], &Region{bs: bs, guard: in.st.live, oidx: oidx, idx: idx, val: v, pos: in.p.posn(pos)})}
	in.st.mem[obj] = n
	if obj.pre {
		in.emit(&Effect{kind: "write", bs: bs, pos: pos, obj: obj, oidx: oidx, idx: idx, msg: obj.key})
	}
}

// ---- expressions

func (in *Interp) typeOf(e ast.Expr) types.Type {
	if t := in.info.TypeOf(e); t != nil {
		return t
	}
	return types.Typ[types.Invalid]
}

func exprString(e ast.Expr) string { return types.ExprString(e) }

// exprTo evaluates e and converts it to t for assignment.
func (in *Interp) exprTo(e ast.Expr, t types.Type) Value {
	return in.convTo(in.expr(e), in.typeOf(e), t)
}

func (in *Interp) convTo(v Value, from, to types.Type) Value {
	if to == nil || from == nil {
		return v
	}
	if _, isI := to.Underlying().(*types.Interface); !isI {
		if _, isNil := v.(NilV); isNil {
			if _, isS := to.Underlying().(*types.Slice); isS {
				return in.zero(to)
			}
		}
		return v
	}
	if _, isI := from.Underlying().(*types.Interface); isI {
		return v
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return NilV{}
	}
	switch x := v.(type) {
	case IfaceV, UnkV:
		return v
	case CondV:
		return mkCond(x.c, in.convTo(x.a, from, to), in.convTo(x.b, from, to))
	}
	return IfaceV{from, v}
}

func (in *Interp) exprMulti(e ast.Expr) Value {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	switch x := e.(type) {
	case *ast.CallExpr:
		return in.call(x)
	case *ast.TypeAssertExpr:
		if _, ok := in.typeOf(e).(*types.Tuple); ok {
			v := in.expr(x.X)
			r, ok := in.typeAssert(v, in.typeOf(x.Type))
			return TupleV{r, ok}
		}
	}
	return in.expr(e)
}

func (in *Interp) constVal(tv types.TypeAndValue) Value {
	t := tv.Type
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(tv.Value))
		case b.Info()&types.IsInteger != 0:
			if i, exact := constant.Int64Val(constant.ToInt(tv.Value)); exact && i < 1<<52 && i > -(1<<52) {
				return Int(i)
			}
			return App("int:"+tv.Value.String(), SInt)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(tv.Value))
			return Flt(f)
		case b.Info()&types.IsString != 0:
			return StrV{constant.StringVal(tv.Value)}
		}
	}
	return UnkV{"constant"}
}

func (in *Interp) expr(e ast.Expr) Value {
	if in.st.dead() {
		return in.unkOf(in.typeOf(e), "unreachable")
	}
	in.tick()
	if tv, ok := in.info.Types[e]; ok && tv.Value != nil {
		return in.constVal(tv)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return in.expr(x.X)
	case *ast.Ident:
		if x.Name == "nil" {
			if _, ok := in.info.Uses[x].(*types.Nil); ok {
				return NilV{}
			}
		}
		o := in.info.Uses[x]
		if f, ok := o.(*types.Func); ok {
			return FuncV{decl: f}
		}
		pl, t := in.place(x)
		return in.load(pl, t, x.Pos())
	case *ast.BasicLit:
		return UnkV{"literal"}
	case *ast.FuncLit:
		return FuncV{lit: x, env: in.fr}
	case *ast.CompositeLit:
		return in.composite(x)
	case *ast.UnaryExpr:
		return in.unary(x)
	case *ast.BinaryExpr:
		return in.binary(x)
	case *ast.StarExpr:
		return in.load(in.expr(x.X), in.typeOf(e), x.Pos())
	case *ast.SelectorExpr:
		return in.selector(x)
	case *ast.IndexExpr:
		if b, ok := in.typeOf(x.X).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			in.expr(x.X)
			in.expr(x.Index)
			return in.unkOf(in.typeOf(e), "string index")
		}
		pl, t := in.place(x)
		return in.load(pl, t, x.Pos())
	case *ast.SliceExpr:
		return in.slice(x)
	case *ast.TypeAssertExpr:
		v := in.expr(x.X)
		r, ok := in.typeAssert(v, in.typeOf(x.Type))
		in.require(ok, x.Pos(), "failed type assertion: "+exprString(x))
		return r
	case *ast.CallExpr:
		v := in.call(x)
		if tv, ok := v.(TupleV); ok && len(tv) == 1 {
			return tv[0]
		}
		return v
	}
	in.fail(e, "expression %T", e)
	return nil
}

func (in *Interp) cond(e ast.Expr) *Term {
	v := in.expr(e)
	if t, ok := v.(*Term); ok && t.sort == SBool {
		return t
	}
	return Unk(SBool, "condition "+exprString(e))
}

func hasCall(e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.IndexExpr, *ast.StarExpr, *ast.SelectorExpr:
			r = true
		}
		return !r
	})
	return r
}

func (in *Interp) unary(x *ast.UnaryExpr) Value {
	switch x.Op {
	case token.AND:
		inner := x.X
		for {
			p, ok := inner.(*ast.ParenExpr)
			if !ok {
				break
			}
			inner = p.X
		}
		pl, _ := in.place(inner)
		return pl
	case token.NOT:
		return Not(in.cond(x.X))
	case token.SUB:
		if t, ok := in.expr(x.X).(*Term); ok {
			return Scale(t, -1)
		}
	case token.ADD:
		return in.expr(x.X)
	}
	return in.unkOf(in.typeOf(x), "unary "+x.Op.String())
}

func (in *Interp) binary(x *ast.BinaryExpr) Value {
	if x.Op == token.LAND || x.Op == token.LOR {
		a := in.cond(x.X)
		if in.st.dead() {
			return tFalse
		}
		sel := a
		if x.Op == token.LOR {
			sel = Not(a)
		}
		sel = Decide(in.st.facts, sel)
		if sel == tFalse {
			return Bool(x.Op == token.LOR)
		}
		if sel == tTrue {
			return in.cond(x.Y)
		}
		base := in.st
		var b *Term
		if hasCall(x.Y) {
			in.st = in.forkFrom(base, sel)
			b = in.cond(x.Y)
			in.st = in.join(sel, in.st, in.forkFrom(base, Not(sel)), base)
		} else {
			b = in.cond(x.Y)
		}
		if x.Op == token.LAND {
			return And(a, b)
		}
		return Or(a, b)
	}
	ta, tb := in.typeOf(x.X), in.typeOf(x.Y)
	a := in.expr(x.X)
	b := in.expr(x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		_, ia := ta.Underlying().(*types.Interface)
		_, ib := tb.Underlying().(*types.Interface)
		if ia && !ib {
			b = in.convTo(b, tb, ta)
		} else if ib && !ia {
			a = in.convTo(a, ta, tb)
		}
		c := in.valEq(a, b)
		if x.Op == token.NEQ {
			c = Not(c)
		}
		return c
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		p, ok1 := a.(*Term)
		q, ok2 := b.(*Term)
		if !ok1 || !ok2 {
			return Unk(SBool, "comparison")
		}
		return compare(x.Op, p, q)
	}
	return in.arith(x.Op, a, b, in.typeOf(x), x.Pos())
}

func compare(op token.Token, p, q *Term) *Term {
	if op == token.GTR || op == token.GEQ {
		p, q = q, p
	}
	strict := op == token.LSS || op == token.GTR
	if p.sort == SFloat {
		if strict {
			return FLt(p, q)
		}
		return FLe(p, q)
	}
	if strict {
		return Lt(p, q)
	}
	return Le(p, q)
}

func (in *Interp) arith(op token.Token, av, bv Value, t types.Type, pos token.Pos) Value {
	a, ok1 := av.(*Term)
	b, ok2 := bv.(*Term)
	if !ok1 || !ok2 {
		if v := complexArith(op, av, bv); v != nil {
			return v
		}
		if _, ok := av.(StrV); ok {
			return StrV{"?"}
		}
		return in.unkOf(t, "arithmetic")
	}
	switch op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.QUO:
		if a.sort == SFloat {
			return FDiv(a, b)
		}
		in.require(Not(Eq0(b)), pos, "integer division by zero")
		return in.simpDivF(in.st.facts, a, b)
	case token.REM:
		in.require(Not(Eq0(b)), pos, "integer division by zero")
		return Sub(a, Mul(b, in.simpDivF(in.st.facts, a, b)))
	case token.SHL:
		if c, ok := constantT(b); ok && c >= 0 && c < 40 {
			return Scale(a, float64(int64(1)<<uint(c)))
		}
	case token.SHR:
		if c, ok := constantT(b); ok && c >= 0 && c < 40 && Prove(in.st.facts, Ge0(a)) {
			return in.simpDivF(in.st.facts, a, Int(int64(1)<<uint(c)))
		}
	case token.AND:
		if c, ok := constantT(b); ok && c == 1 && Prove(in.st.facts, Ge0(a)) {
			return ModInt(a, Int(2))
		}
	}
	return App("int"+op.String(), a.sort, a, b)
}

// complexArith: complex numbers are pairs.
func complexArith(op token.Token, av, bv Value) Value {
	a, ok1 := av.(StructV)
	b, ok2 := bv.(StructV)
	if !ok1 || !ok2 || len(a.f) != 2 || len(b.f) != 2 {
		return nil
	}
	var t [4]*Term
	for i, v := range []Value{a.f[0], a.f[1], b.f[0], b.f[1]} {
		x, ok := v.(*Term)
		if !ok || x.sort != SFloat {
			return nil
		}
		t[i] = x
	}
	pair := func(x, y *Term) Value { return StructV{a.typ, []Value{x, y}} }
	switch op {
	case token.ADD:
		return pair(Add(t[0], t[2]), Add(t[1], t[3]))
	case token.SUB:
		return pair(Sub(t[0], t[2]), Sub(t[1], t[3]))
	case token.MUL:
		return pair(Sub(Mul(t[0], t[2]), Mul(t[1], t[3])), Add(Mul(t[0], t[3]), Mul(t[1], t[2])))
	case token.QUO:
		d := Add(Mul(t[2], t[2]), Mul(t[3], t[3]))
		return pair(FDiv(Add(Mul(t[0], t[2]), Mul(t[1], t[3])), d), FDiv(Sub(Mul(t[1], t[2]), Mul(t[0], t[3])), d))
	}
	return nil
}

func (in *Interp) valEq(a, b Value) *Term {
	if x, ok := a.(CondV); ok {
		return Ite(x.c, in.valEq(x.a, b), in.valEq(x.b, b))
	}
	if y, ok := b.(CondV); ok {
		return Ite(y.c, in.valEq(a, y.a), in.valEq(a, y.b))
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.sort == y.sort {
			switch x.sort {
			case SInt:
				return Eq(x, y)
			case SFloat:
				return FEq(x, y)
			case SBool:
				return Or(And(x, y), And(Not(x), Not(y)))
			}
		}
	case NilV:
		switch y := b.(type) {
		case NilV:
			return tTrue
		case SliceV:
			return y.isn
		case PtrV, IfaceV, FuncV:
			return tFalse
		}
	case SliceV:
		if _, ok := b.(NilV); ok {
			return x.isn
		}
	case PtrV:
		switch y := b.(type) {
		case NilV:
			return tFalse
		case PtrV:
			if samePlace(x.pl, y.pl) {
				return tTrue
			}
			if x.pl.cell != nil && y.pl.cell != nil && x.pl.cell != y.pl.cell && len(in.loops) == 0 {
				return tFalse
			}
			if x.pl.cell != nil && y.pl.cell != nil && x.pl.cell != y.pl.cell && (strings.HasPrefix(x.pl.cell.key, "in:") || strings.HasPrefix(y.pl.cell.key, "in:")) {
				return tFalse
			}
		}
	case IfaceV:
		switch y := b.(type) {
		case NilV:
			return tFalse
		case IfaceV:
			if !types.Identical(x.dyn, y.dyn) {
				return tFalse
			}
			return in.valEq(x.v, y.v)
		}
	case FuncV:
		if _, ok := b.(NilV); ok {
			return tFalse
		}
	case StrV:
		if y, ok := b.(StrV); ok && x.s != "?" && y.s != "?" {
			return Bool(x.s == y.s)
		}
	}
	return Unk(SBool, "comparison")
}

func (in *Interp) selector(x *ast.SelectorExpr) Value {
	sel := in.info.Selections[x]
	if sel == nil {
		// qualified identifier
		if f, ok := in.info.Uses[x.Sel].(*types.Func); ok {
			return FuncV{std: f}
		}
		return in.unkOf(in.typeOf(x), "qualified "+x.Sel.Name)
	}
	switch sel.Kind() {
	case types.FieldVal:
		if _, isPtr := in.typeOf(x.X).Underlying().(*types.Pointer); isPtr || addressable(x.X) {
			pl, t := in.place(x)
			return in.load(pl, t, x.Pos())
		}
		v := in.expr(x.X)
		t := in.typeOf(x.X)
		for _, i := range sel.Index() {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
				v = in.load(v, t, x.Pos())
			}
			v = in.project(v, i)
			t = t.Underlying().(*types.Struct).Field(i).Type()
		}
		return v
	case types.MethodVal:
		recv, _ := in.methodRecv(x, sel)
		return FuncV{decl: sel.Obj().(*types.Func), recv: recv}
	}
	return in.unkOf(in.typeOf(x), "method expression")
}

func addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.ParenExpr:
		return addressable(x.X)
	case *ast.SelectorExpr:
		return addressable(x.X)
	case *ast.IndexExpr, *ast.StarExpr:
		return true
	}
	return false
}

func (in *Interp) composite(x *ast.CompositeLit) Value {
	t := in.typeOf(x)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := in.zero(t).(StructV)
		for i, e := range x.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						v.f[j] = in.exprTo(kv.Value, u.Field(j).Type())
					}
				}
			} else {
				v.f[i] = in.exprTo(e, u.Field(i).Type())
			}
		}
		return v
	case *types.Slice:
		n := Int(int64(len(x.Elts)))
		s := in.allocSlice(in.sitePos(x), u.Elem(), n, n)
		for i, e := range x.Elts {
			if _, ok := e.(*ast.KeyValueExpr); ok {
				return UnkV{"keyed slice literal"}
			}
			var v Value
			if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
				v = in.composite(cl)
			} else {
				v = in.exprTo(e, u.Elem())
			}
			if !in.st.dead() {
				in.writeMem(s.obj, s.oidx, Int(int64(i)), nil, v, x.Pos())
			}
		}
		return s
	}
	for _, e := range x.Elts {
		if kv, ok := e.(*ast.KeyValueExpr); ok {
			in.expr(kv.Value)
		} else {
			in.expr(e)
		}
	}
	return UnkV{"composite " + t.String()}
}

func (in *Interp) slice(x *ast.SliceExpr) Value {
	v := in.expr(x.X)
	opt := func(e ast.Expr) (*Term, bool) {
		if e == nil {
			return nil, true
		}
		t, ok := in.expr(e).(*Term)
		return t, ok
	}
	lo, ok1 := opt(x.Low)
	hi, ok2 := opt(x.High)
	mx, ok3 := opt(x.Max)
	if !ok1 || !ok2 || !ok3 {
		return UnkV{"slice bounds"}
	}
	return in.sliceV(v, lo, hi, mx, x)
}

func (in *Interp) sliceV(v Value, lo, hi, mx *Term, x *ast.SliceExpr) Value {
	switch s := v.(type) {
	case SliceV:
		if lo == nil {
			lo = Int(0)
		}
		if hi == nil {
			hi = s.len
		}
		cap := s.cap
		if mx != nil {
			in.require(Le(mx, s.cap), x.Pos(), "slice bounds out of range: "+exprString(x))
			cap = mx
		}
		in.require(And(Ge0(lo), Le(lo, hi), Le(hi, cap)), x.Pos(), "slice bounds out of range: "+exprString(x))
		s.off = Add(s.off, lo)
		s.len = Sub(hi, lo)
		s.cap = Sub(cap, lo)
		return s
	case CondV:
		return in.splitV(s, func(y Value) Value { return in.sliceV(y, lo, hi, mx, x) })
	}
	return UnkV{"sliced value"}
}

// typeAssert returns the asserted value and whether it holds.
func (in *Interp) typeAssert(v Value, t types.Type) (Value, *Term) {
	_, toI := t.Underlying().(*types.Interface)
	switch x := v.(type) {
	case IfaceV:
		if toI {
			if types.Implements(x.dyn, t.Underlying().(*types.Interface)) {
				return x, tTrue
			}
			return NilV{}, tFalse
		}
		if types.Identical(x.dyn, t) {
			return x.v, tTrue
		}
		return in.zero(t), tFalse
	case NilV:
		return in.zero(t), tFalse
	case CondV:
		a, oka := in.typeAssert(x.a, t)
		b, okb := in.typeAssert(x.b, t)
		return mkCond(x.c, a, b), Ite(x.c, oka, okb)
	}
	return in.unkOf(t, "assertion on unknown"), Unk(SBool, "assertion on unknown")
}

func (in *Interp) global(v *types.Var) Value {
	if x, ok := in.globals[v]; ok {
		return x
	}
	r := in.unkOf(v.Type(), "global "+v.Name())
	if e, ok := in.initOf[v]; ok {
		if tv, ok := in.info.Types[e]; ok && tv.Value != nil {
			r = in.convTo(in.constVal(types.TypeAndValue{Type: v.Type(), Value: tv.Value}), tv.Type, v.Type())
		}
	} else {
		r = in.zero(v.Type())
	}
	in.globals[v] = r
	return r
}

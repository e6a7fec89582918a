package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect and alias analysis over SSA.
//
// A compositional, flow-insensitive, field-sensitive points-to and effect analysis: each
// function is summarised once per vector of constant boolean arguments, with its parameters
// as symbolic roots; calls instantiate summaries, interface calls join the summaries of every
// implementation in the package. The result of a function is the set of parameter-rooted
// memory cells it may write, and the heap graph reachable from its results.

// Obj is an abstract memory object.
type Obj struct {
	key   string
	root  int // >=0: reachable from parameter/free variable; -1 fresh; -2 global; -3 unknown
	depth int
}

// Loc is a cell of an object. cell "" is the object itself (what a pointer or slice points to).
type Loc struct {
	o    *Obj
	cell string
}

func (l Loc) String() string {
	if l.cell == "" {
		return l.o.key
	}
	return l.o.key + "." + l.cell
}

type LocSet map[Loc]bool

func (s LocSet) addAll(t LocSet) bool {
	ch := false
	for l := range t {
		if !s[l] {
			s[l] = true
			ch = true
		}
	}
	return ch
}

// Write is one abstract write.
type Write struct {
	loc    Loc
	guards string // sorted, '|'-separated guard cells known nil where the write happens
	pos    token.Pos
	fn     *ssa.Function
}

type wkey struct {
	loc    Loc
	guards string
}

type Summary struct {
	fn      *ssa.Function
	ctx     string
	writes  map[wkey]Write
	results []LocSet
	edges   map[Loc]LocSet
	// nondeterminism and global effects
	globalsWritten map[string]token.Pos
	globalsRead    map[string]token.Pos
	nondet         map[string]token.Pos
	size           int
}

type Effects struct {
	p      *Prog
	sums   map[string]*Summary
	order  []string
	fnOf   map[string]*ssa.Function
	ctxOf  map[string]map[int]bool
	byName map[string][]*ssa.Function // method name -> concrete methods
	dirty  bool
	objs   map[string]*Obj
	siteID map[ssa.Instruction]int
	// extra (std) functions met that have no model
	unknown map[string]token.Pos
	calls   int
}

func NewEffects(p *Prog) *Effects {
	e := &Effects{p: p, sums: map[string]*Summary{}, fnOf: map[string]*ssa.Function{}, ctxOf: map[string]map[int]bool{},
		byName: map[string][]*ssa.Function{}, objs: map[string]*Obj{}, siteID: map[ssa.Instruction]int{}, unknown: map[string]token.Pos{}}
	id := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				id++
				e.siteID[in] = id
			}
		}
		if fn.Signature.Recv() != nil && fn.Parent() == nil {
			e.byName[fn.Name()] = append(e.byName[fn.Name()], fn)
		}
	}
	for _, fn := range p.Funcs {
		e.need(fn, nil)
	}
	for iter := 0; iter < 60; iter++ {
		e.dirty = false
		for i := 0; i < len(e.order); i++ {
			e.analyse(e.order[i])
		}
		if !e.dirty {
			break
		}
	}
	return e
}

func ctxKey(fn *ssa.Function, c map[int]bool) string {
	var ks []int
	for k := range c {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	s := fn.String()
	if fn.Parent() != nil {
		s = fn.Parent().String() + "/" + s
	}
	for _, k := range ks {
		s += fmt.Sprintf("#%d=%v", k, c[k])
	}
	return s
}

func (e *Effects) need(fn *ssa.Function, c map[int]bool) *Summary {
	k := ctxKey(fn, c)
	if s, ok := e.sums[k]; ok {
		return s
	}
	s := &Summary{fn: fn, ctx: k, writes: map[wkey]Write{}, edges: map[Loc]LocSet{},
		globalsWritten: map[string]token.Pos{}, globalsRead: map[string]token.Pos{}, nondet: map[string]token.Pos{}, size: -1}
	n := fn.Signature.Results().Len()
	for i := 0; i < n; i++ {
		s.results = append(s.results, LocSet{})
	}
	e.sums[k] = s
	e.fnOf[k] = fn
	cc := map[int]bool{}
	for a, b := range c {
		cc[a] = b
	}
	e.ctxOf[k] = cc
	e.order = append(e.order, k)
	e.dirty = true
	return s
}

func (e *Effects) obj(key string, root, depth int) *Obj {
	if o, ok := e.objs[key]; ok {
		return o
	}
	o := &Obj{key: key, root: root, depth: depth}
	e.objs[key] = o
	return o
}

func (e *Effects) child(o *Obj, cell string) *Obj {
	if o.depth >= 6 {
		return o
	}
	return e.obj(o.key+"."+cell, o.root, o.depth+1)
}

func pointerful(t types.Type) bool { return pointerfulRec(t, 0) }
func pointerfulRec(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerfulRec(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return pointerfulRec(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerfulRec(u.At(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func joinCell(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return a + "." + b
}

// fstate is the working state of one function analysis.
type fstate struct {
	e    *Effects
	fn   *ssa.Function
	sum  *Summary
	ctx  map[int]bool
	pts  map[ssa.Value]LocSet
	tup  map[ssa.Value][]LocSet
	live map[*ssa.BasicBlock]bool
	ch   bool
	gcs  map[*ssa.BasicBlock][]guardRef
}

func (e *Effects) analyse(k string) {
	s := e.sums[k]
	st := &fstate{e: e, fn: e.fnOf[k], sum: s, ctx: e.ctxOf[k], pts: map[ssa.Value]LocSet{}, tup: map[ssa.Value][]LocSet{}}
	for i, p := range st.fn.Params {
		if pointerful(p.Type()) {
			st.pts[p] = LocSet{Loc{e.obj(fmt.Sprintf("P%d", i), i, 0), ""}: true}
		}
	}
	for i, fv := range st.fn.FreeVars {
		j := len(st.fn.Params) + i
		st.pts[fv] = LocSet{Loc{e.obj(fmt.Sprintf("P%d", j), j, 0), ""}: true}
	}
	st.live = liveBlocks(st.fn, st.ctx)
	st.gcs = nilGuards(st.fn)
	for iter := 0; iter < 50; iter++ {
		st.ch = false
		for _, b := range st.fn.Blocks {
			if !st.live[b] {
				continue
			}
			for _, in := range b.Instrs {
				st.instr(in)
			}
		}
		if !st.ch {
			break
		}
	}
	sz := len(s.writes) + len(s.globalsRead)*1 + len(s.globalsWritten) + len(s.nondet)
	for _, r := range s.results {
		sz += len(r)
	}
	for _, v := range s.edges {
		sz += len(v)
	}
	if sz != s.size {
		s.size = sz
		e.dirty = true
	}
}

// liveBlocks prunes branches decided by constant boolean parameters.
func liveBlocks(fn *ssa.Function, ctx map[int]bool) map[*ssa.BasicBlock]bool {
	idx := map[ssa.Value]int{}
	for i, p := range fn.Params {
		idx[p] = i
	}
	live := map[*ssa.BasicBlock]bool{}
	var eval func(v ssa.Value) (bool, bool)
	eval = func(v ssa.Value) (bool, bool) {
		if i, ok := idx[v]; ok {
			b, known := ctx[i]
			return b, known
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			b, known := eval(u.X)
			return !b, known
		}
		return false, false
	}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if live[b] {
			return
		}
		live[b] = true
		if len(b.Instrs) > 0 {
			if f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if v, known := eval(f.Cond); known {
					if v {
						visit(b.Succs[0])
					} else {
						visit(b.Succs[1])
					}
					return
				}
			}
		}
		for _, s := range b.Succs {
			visit(s)
		}
	}
	if len(fn.Blocks) > 0 {
		visit(fn.Blocks[0])
	}
	if fn.Recover != nil {
		visit(fn.Recover)
	}
	return live
}

// guardRef names a memory cell known to hold nil: the cell an SSA value points to, or the cell at
// a path from an argument of a call (the call of a predicate helper).
type guardRef struct {
	addr ssa.Value
	args []ssa.Value
	path string
}

// nilGuards returns, for each block, the cells known to hold nil there.
func nilGuards(fn *ssa.Function) map[*ssa.BasicBlock][]guardRef {
	out := map[*ssa.BasicBlock][]guardRef{}
	for _, b := range fn.Blocks {
		out[b] = knownNil(b, map[*ssa.BasicBlock]bool{})
	}
	return out
}

// knownNil: the cells that the branches dominating b found to hold nil.
func knownNil(b *ssa.BasicBlock, busy map[*ssa.BasicBlock]bool) []guardRef {
	if busy[b] {
		return nil
	}
	busy[b] = true
	defer delete(busy, b)
	var out []guardRef
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		f, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			continue
		}
		out = append(out, nilFacts(f.Cond, p.Succs[0] == d, busy, 0)...)
	}
	return out
}

// nilFacts: the cells that hold nil when cond has the given truth value.
func nilFacts(cond ssa.Value, truth bool, busy map[*ssa.BasicBlock]bool, depth int) []guardRef {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return nilFacts(x.X, !truth, busy, depth)
		}
	case *ssa.BinOp:
		if (x.Op == token.EQL) != truth || (x.Op != token.EQL && x.Op != token.NEQ) {
			return nil
		}
		a, b := x.X, x.Y
		if isNilConst(a) {
			a, b = b, a
		}
		if !isNilConst(b) {
			return nil
		}
		if ld, ok := a.(*ssa.UnOp); ok && ld.Op == token.MUL {
			return []guardRef{{addr: ld.X}}
		}
		if call, ok := a.(*ssa.Call); ok {
			return throughCall(call, func(r ssa.Value) []guardRef {
				if ld, ok := r.(*ssa.UnOp); ok && ld.Op == token.MUL {
					return []guardRef{{addr: ld.X}}
				}
				return nil
			})
		}
	case *ssa.Phi: // a && b, a || b kept in a variable
		if busy[x.Block()] && depth > 0 {
			return nil
		}
		n := -1
		for i, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && constant.BoolVal(c.Value) != truth {
				continue
			}
			if n >= 0 {
				return nil
			}
			n = i
		}
		if n < 0 {
			return nil
		}
		p := x.Block().Preds[n]
		return append(nilFacts(x.Edges[n], truth, busy, depth+1), knownNil(p, busy)...)
	case *ssa.Call: // a predicate helper
		if depth > 4 {
			return nil
		}
		return throughCall(x, func(r ssa.Value) []guardRef {
			return nilFacts(r, truth, map[*ssa.BasicBlock]bool{}, depth+1)
		})
	}
	return nil
}

// throughCall: the facts about the only result of a helper, in terms of the call's arguments.
func throughCall(call *ssa.Call, facts func(ssa.Value) []guardRef) []guardRef {
	fn := call.Call.StaticCallee()
	if fn == nil || len(fn.Blocks) == 0 || len(fn.FreeVars) > 0 || len(fn.Params) != len(call.Call.Args) {
		return nil
	}
	var ret *ssa.Return
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Return:
				if ret != nil {
					return nil
				}
				ret = y
			case *ssa.Store, *ssa.MapUpdate, *ssa.Defer, *ssa.Go:
				return nil // it may change what it tests
			}
		}
	}
	if ret == nil || len(ret.Results) != 1 {
		return nil
	}
	var out []guardRef
	for _, g := range facts(ret.Results[0]) {
		if g.addr == nil {
			continue // a helper of a helper: not followed
		}
		if p := paramPath(g.addr); p != "" {
			out = append(out, guardRef{args: call.Call.Args, path: p})
		}
	}
	return out
}

// paramPath renders the address of a cell reached from a parameter by fields ("P0.cache").
func paramPath(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return fmt.Sprintf("P%d", i)
			}
		}
	case *ssa.FieldAddr:
		if p := paramPath(x.X); p != "" {
			return p + "." + structField(x.X.Type(), x.Field)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return paramPath(x.X)
		}
	}
	return ""
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (st *fstate) get(v ssa.Value) LocSet {
	switch x := v.(type) {
	case *ssa.Global:
		return LocSet{Loc{st.e.obj("G:"+x.Name(), -2, 0), ""}: true}
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Function:
		return nil
	}
	return st.pts[v]
}

func (st *fstate) add(v ssa.Value, s LocSet) {
	if len(s) == 0 {
		return
	}
	m := st.pts[v]
	if m == nil {
		m = LocSet{}
		st.pts[v] = m
	}
	if m.addAll(s) {
		st.ch = true
	}
}

func (st *fstate) addEdge(l Loc, s LocSet) {
	if len(s) == 0 {
		return
	}
	m := st.sum.edges[l]
	if m == nil {
		m = LocSet{}
		st.sum.edges[l] = m
	}
	if m.addAll(s) {
		st.ch = true
	}
}

// content returns what cell l may point to.
func (st *fstate) content(l Loc) LocSet { return st.e.contentOf(st.sum.edges, l) }

func (e *Effects) contentOf(edges map[Loc]LocSet, l Loc) LocSet {
	out := LocSet{}
	for k, s := range edges {
		if k.o == l.o && (k.cell == l.cell || strings.HasPrefix(k.cell, l.cell+".") || (l.cell == "" && k.cell != "")) {
			out.addAll(s)
		} else if k.o == l.o && k.cell != "" && strings.HasPrefix(l.cell, k.cell+".") {
			out.addAll(s)
		}
	}
	if l.o.root != -1 {
		cell := l.cell
		if cell == "" {
			cell = "*"
		}
		out[Loc{e.child(l.o, cell), ""}] = true
	}
	return out
}

func (st *fstate) guardsAt(b *ssa.BasicBlock) map[string]bool {
	g := map[string]bool{}
	for _, a := range st.gcs[b] {
		if a.addr == nil {
			var args []LocSet
			for _, v := range a.args {
				args = append(args, st.get(v))
			}
			for _, l := range st.mapGuard(a.path, args) {
				g[l] = true
			}
			continue
		}
		for l := range st.get(a.addr) {
			g[l.String()] = true
		}
	}
	return g
}

func guardString(g map[string]bool) string {
	var ks []string
	for k := range g {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, "|")
}

func (st *fstate) write(l Loc, guards map[string]bool, pos token.Pos, fn *ssa.Function) {
	if l.o.root == -1 {
		return // writes to fresh objects are invisible
	}
	if l.o.root == -2 {
		if _, ok := st.sum.globalsWritten[l.o.key]; !ok {
			st.sum.globalsWritten[l.o.key] = pos
			st.ch = true
		}
	}
	k := wkey{l, guardString(guards)}
	if _, ok := st.sum.writes[k]; !ok {
		st.sum.writes[k] = Write{l, k.guards, pos, fn}
		st.ch = true
	}
}

func (st *fstate) fresh(in ssa.Instruction, suffix string) Loc {
	return Loc{st.e.obj(fmt.Sprintf("F%d%s", st.e.siteID[in], suffix), -1, 0), ""}
}

func (st *fstate) instr(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		st.add(x, LocSet{st.fresh(in, ""): true})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		st.add(x.(ssa.Value), LocSet{st.fresh(in, ""): true})
	case *ssa.MakeClosure:
		l := st.fresh(in, "")
		st.add(x, LocSet{l: true})
		fn := x.Fn.(*ssa.Function)
		args := make([]LocSet, len(fn.Params)+len(fn.FreeVars))
		for i, b := range x.Bindings {
			args[len(fn.Params)+i] = st.get(b)
			st.addEdge(Loc{l.o, fmt.Sprintf("fv%d", i)}, st.get(b))
		}
		called, within := true, true
		for _, r := range *x.Referrers() {
			call, ok := r.(*ssa.Call)
			if _, dbg := r.(*ssa.DebugRef); dbg {
				continue
			}
			called = called && ok && call.Call.Value == x
			within = within && ok
		}
		var g map[string]bool
		if within {
			g = st.guardsAt(in.Block()) // it runs while this activation does
		}
		if !called {
			// the closure may be called at any time after its creation
			st.apply(st.e.need(fn, nil), args, in, g)
		}
	case *ssa.FieldAddr:
		f := structField(x.X.Type(), x.Field)
		out := LocSet{}
		for l := range st.get(x.X) {
			out[Loc{l.o, joinCell(l.cell, f)}] = true
		}
		st.add(x, out)
	case *ssa.Field:
		st.add(x, st.get(x.X))
	case *ssa.IndexAddr:
		out := LocSet{}
		for l := range st.get(x.X) {
			out[Loc{l.o, joinCell(l.cell, "[]")}] = true
		}
		st.add(x, out)
	case *ssa.Index:
		st.add(x, st.get(x.X))
	case *ssa.Lookup:
		out := LocSet{}
		for l := range st.get(x.X) {
			out.addAll(st.content(Loc{l.o, "[]"}))
		}
		if x.CommaOk {
			st.setTup(x, 0, out)
		} else {
			st.add(x, out)
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			for l := range st.get(x.X) {
				if l.o.root == -2 {
					if _, ok := st.sum.globalsRead[l.o.key]; !ok {
						st.sum.globalsRead[l.o.key] = x.Pos()
						st.ch = true
					}
				}
			}
			if pointerful(x.Type()) {
				out := LocSet{}
				for l := range st.get(x.X) {
					out.addAll(st.content(l))
				}
				st.add(x, out)
			}
		case token.ARROW:
			st.nondet("channel receive", x.Pos())
		}
	case *ssa.Store:
		g := st.guardsAt(in.Block())
		for l := range st.get(x.Addr) {
			st.write(l, g, x.Pos(), st.fn)
			if pointerful(x.Val.Type()) {
				st.addEdge(l, st.get(x.Val))
			}
		}
	case *ssa.MapUpdate:
		g := st.guardsAt(in.Block())
		for l := range st.get(x.Map) {
			st.write(Loc{l.o, joinCell(l.cell, "[]")}, g, x.Pos(), st.fn)
			st.addEdge(Loc{l.o, "[]"}, st.get(x.Value))
			st.addEdge(Loc{l.o, "[]"}, st.get(x.Key))
		}
	case *ssa.Phi:
		for i, ed := range x.Edges {
			if st.live[in.Block().Preds[i]] {
				st.add(x, st.get(ed))
			}
		}
	case *ssa.Slice:
		st.add(x, st.get(x.X))
	case *ssa.ChangeType:
		st.add(x, st.get(x.X))
	case *ssa.ChangeInterface:
		st.add(x, st.get(x.X))
	case *ssa.Convert:
		st.add(x, st.get(x.X))
	case *ssa.SliceToArrayPointer:
		st.add(x, st.get(x.X))
	case *ssa.MakeInterface:
		st.add(x, st.get(x.X))
	case *ssa.TypeAssert:
		if x.CommaOk {
			st.setTup(x, 0, st.get(x.X))
		} else {
			st.add(x, st.get(x.X))
		}
	case *ssa.Extract:
		if t, ok := st.tup[x.Tuple]; ok && x.Index < len(t) {
			st.add(x, t[x.Index])
		}
	case *ssa.Call:
		st.call(x, x.Common())
	case *ssa.Defer:
		st.call(nil, x.Common(), in)
	case *ssa.Go:
		st.nondet("goroutine", x.Pos())
		st.call(nil, x.Common(), in)
	case *ssa.Select:
		st.nondet("select", x.Pos())
	case *ssa.Send:
		st.nondet("channel send", x.Pos())
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			st.nondet("map iteration", x.Pos())
		}
	case *ssa.Return:
		for i, r := range x.Results {
			if pointerful(r.Type()) {
				if st.sum.results[i].addAll(st.get(r)) {
					st.ch = true
				}
			}
		}
	}
}

func (st *fstate) nondet(what string, pos token.Pos) {
	if _, ok := st.sum.nondet[what]; !ok {
		st.sum.nondet[what] = pos
		st.ch = true
	}
}

func (st *fstate) setTup(v ssa.Value, i int, s LocSet) {
	t := st.tup[v]
	for len(t) <= i {
		t = append(t, LocSet{})
	}
	if t[i].addAll(s) {
		st.ch = true
	}
	st.tup[v] = t
}

func structField(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

var pureStd = map[string]bool{"math": true, "fmt": true, "strconv": true, "errors": true, "strings": true, "unicode": true,
	"unicode/utf8": true, "math/bits": true, "math/cmplx": true, "math/big": true, "bytes": true}
var nondetStd = map[string]bool{"math/rand": true, "math/rand/v2": true, "time": true, "crypto/rand": true, "os": true, "runtime": true, "net": true,
	"io/ioutil": true, "maps": true}

func (st *fstate) call(res *ssa.Call, c *ssa.CallCommon, at ...ssa.Instruction) {
	var in ssa.Instruction = res
	if res == nil {
		in = at[0]
	}
	g := st.guardsAt(in.Block())
	setRes := func(rs []LocSet) {
		if res == nil {
			return
		}
		if len(rs) == 1 {
			st.add(res, rs[0])
		} else {
			for i, r := range rs {
				st.setTup(res, i, r)
			}
		}
	}
	if c.IsInvoke() {
		st.e.calls++
		args := []LocSet{st.get(c.Value)}
		for _, a := range c.Args {
			args = append(args, st.get(a))
		}
		iface := c.Value.Type().Underlying().(*types.Interface)
		for _, m := range st.e.byName[c.Method.Name()] {
			if m.Synthetic != "" || !types.Implements(m.Signature.Recv().Type(), iface) {
				continue
			}
			setRes(st.apply(st.e.need(m, nil), args, in, g))
		}
		return
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		st.builtin(res, f, c, in, g)
		return
	case *ssa.Function:
		if f.Blocks != nil && (f.Package() == st.fn.Package() || f.Package() == nil || f.Package() == st.e.p.SPkg) {
			st.static(f, c, nil, in, g, setRes)
			return
		}
		st.stdcall(f, c, in, g, setRes)
		return
	case *ssa.MakeClosure:
		st.static(f.Fn.(*ssa.Function), c, f, in, g, setRes)
		return
	}
	// dynamic call of a function value: the closures of this package were accounted for where
	// they were created; a user's callback is the user's business, but memory handed to it escapes.
	for _, a := range c.Args {
		for l := range st.get(a) {
			st.write(Loc{l.o, joinCell(l.cell, "[]")}, g, in.Pos(), st.fn)
		}
	}
	// results of dynamic calls: join of all closures with the same signature
	if res != nil && pointerful(res.Type()) {
		for _, fn := range st.e.p.Funcs {
			if fn.Parent() != nil && types.Identical(fn.Signature, c.Signature()) {
				args := make([]LocSet, len(fn.Params)+len(fn.FreeVars))
				for i := range fn.Params {
					if i < len(c.Args) {
						args[i] = st.get(c.Args[i])
					}
				}
				setRes(st.apply(st.e.need(fn, nil), args, in, g))
			}
		}
	}
}

func (st *fstate) static(f *ssa.Function, c *ssa.CallCommon, mc *ssa.MakeClosure, in ssa.Instruction, g map[string]bool, setRes func([]LocSet)) {
	st.e.calls++
	args := make([]LocSet, len(f.Params)+len(f.FreeVars))
	ctx := map[int]bool{}
	for i, a := range c.Args {
		args[i] = st.get(a)
		if b, ok := boolConst(a); ok {
			ctx[i] = b
		} else if p, ok := a.(*ssa.Parameter); ok {
			for j, q := range st.fn.Params {
				if p == q {
					if b, ok := st.ctx[j]; ok {
						ctx[i] = b
					}
				}
			}
		}
	}
	if mc != nil {
		for i, b := range mc.Bindings {
			args[len(f.Params)+i] = st.get(b)
		}
	}
	setRes(st.apply(st.e.need(f, ctx), args, in, g))
}

func boolConst(v ssa.Value) (bool, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false, false
	}
	if b, ok := c.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
		return false, false
	}
	return c.Value.String() == "true", true
}

func (st *fstate) stdcall(f *ssa.Function, c *ssa.CallCommon, in ssa.Instruction, g map[string]bool, setRes func([]LocSet)) {
	pkg := ""
	if f.Package() != nil {
		pkg = f.Package().Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	if pkg == "fmt" && strings.HasPrefix(f.Name(), "Sscan") {
		pkg = "?"
	}
	if pureStd[pkg] {
		return
	}
	if nondetStd[pkg] {
		st.nondet("call to "+f.String(), in.Pos())
		return
	}
	if _, ok := st.e.unknown[f.String()]; !ok {
		st.e.unknown[f.String()] = in.Pos()
	}
	all := LocSet{}
	for _, a := range c.Args {
		for l := range st.get(a) {
			st.write(Loc{l.o, joinCell(l.cell, "[]")}, g, in.Pos(), st.fn)
			all[l] = true
		}
	}
	var rs []LocSet
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, all)
	}
	setRes(rs)
}

func (st *fstate) builtin(res *ssa.Call, f *ssa.Builtin, c *ssa.CallCommon, in ssa.Instruction, g map[string]bool) {
	switch f.Name() {
	case "copy":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		for l := range st.get(c.Args[0]) {
			d := Loc{l.o, joinCell(l.cell, "[]")}
			st.write(d, g, in.Pos(), st.fn)
			if pointerful(et) {
				for s := range st.get(c.Args[1]) {
					st.addEdge(d, st.content(Loc{s.o, joinCell(s.cell, "[]")}))
				}
			}
		}
	case "append":
		l := st.fresh(in, "")
		st.add(res, LocSet{l: true})
		st.add(res, st.get(c.Args[0]))
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		d := LocSet{l: true}
		d.addAll(st.get(c.Args[0]))
		for x := range d {
			cell := Loc{x.o, joinCell(x.cell, "[]")}
			st.write(cell, g, in.Pos(), st.fn)
			if pointerful(et) {
				for y := range st.get(c.Args[0]) {
					st.addEdge(cell, st.content(Loc{y.o, joinCell(y.cell, "[]")}))
				}
				if len(c.Args) > 1 {
					for y := range st.get(c.Args[1]) {
						st.addEdge(cell, st.content(Loc{y.o, joinCell(y.cell, "[]")}))
					}
				}
			}
		}
	case "delete", "clear":
		for l := range st.get(c.Args[0]) {
			st.write(Loc{l.o, joinCell(l.cell, "[]")}, g, in.Pos(), st.fn)
		}
	case "recover", "print", "println", "len", "cap", "panic", "close", "real", "imag", "complex", "ssa:wrapnilchk", "min", "max":
		if f.Name() == "ssa:wrapnilchk" && res != nil {
			st.add(res, st.get(c.Args[0]))
		}
	}
}

// apply instantiates a summary at a call.
func (st *fstate) apply(s *Summary, args []LocSet, in ssa.Instruction, g map[string]bool) []LocSet {
	cache := map[*Obj]LocSet{}
	var mapObj func(o *Obj) LocSet
	var mapLoc func(l Loc) LocSet
	mapObj = func(o *Obj) LocSet {
		if r, ok := cache[o]; ok {
			return r
		}
		cache[o] = LocSet{}
		out := LocSet{}
		switch {
		case o.root == -1:
			key := o.key
			if i := strings.Index(key, ":"); i >= 0 {
				key = key[i+1:]
			}
			out[Loc{st.e.obj(fmt.Sprintf("F%d:%s", st.e.siteID[in], key), -1, 0), ""}] = true
		case o.root < -1:
			out[Loc{o, ""}] = true
		default:
			base := fmt.Sprintf("P%d", o.root)
			if o.root >= len(args) {
				break
			}
			cur := LocSet{}
			cur.addAll(args[o.root])
			if o.key != base {
				rest := o.key[len(base)+1:]
				// walk the path; cells may be nested struct paths, resolve step by step
				cur = st.walk(cur, rest)
			}
			out = cur
		}
		cache[o] = out
		return out
	}
	mapLoc = func(l Loc) LocSet {
		out := LocSet{}
		for m := range mapObj(l.o) {
			out[Loc{m.o, joinCell(m.cell, l.cell)}] = true
		}
		return out
	}
	mapSet := func(ls LocSet) LocSet {
		out := LocSet{}
		for l := range ls {
			out.addAll(mapLoc(l))
		}
		return out
	}
	// edges first so that content() sees them
	for i := 0; i < 3; i++ {
		for k, v := range s.edges {
			tgt := mapSet(v)
			for d := range mapLoc(k) {
				st.addEdge(d, tgt)
			}
		}
		for o := range cache {
			delete(cache, o)
		}
	}
	for _, w := range s.writes {
		gg := map[string]bool{}
		for k := range g {
			gg[k] = true
		}
		if w.guards != "" {
			for _, gs := range strings.Split(w.guards, "|") {
				for _, m := range st.mapGuard(gs, args) {
					gg[m] = true
				}
			}
		}
		for l := range mapLoc(w.loc) {
			st.write(l, gg, w.pos, w.fn)
		}
	}
	for k, p := range s.globalsRead {
		if _, ok := st.sum.globalsRead[k]; !ok {
			st.sum.globalsRead[k] = p
			st.ch = true
		}
	}
	for k, p := range s.globalsWritten {
		if _, ok := st.sum.globalsWritten[k]; !ok {
			st.sum.globalsWritten[k] = p
			st.ch = true
		}
	}
	for k, p := range s.nondet {
		if _, ok := st.sum.nondet[k]; !ok {
			st.sum.nondet[k] = p
			st.ch = true
		}
	}
	var rs []LocSet
	for _, r := range s.results {
		rs = append(rs, mapSet(r))
	}
	return rs
}

// walk follows a textual path of cells ("data.[]") from a set of locations. Because cells of
// nested structs and pointer hops both use '.', every split of the path is tried.
func (st *fstate) walk(cur LocSet, path string) LocSet {
	if path == "" {
		return cur
	}
	parts := strings.Split(path, ".")
	out := LocSet{}
	for l := range cur {
		st.walkFrom(l, parts, out)
	}
	return out
}

func (st *fstate) walkFrom(l Loc, parts []string, out LocSet) {
	if len(parts) == 0 {
		out[l] = true
		return
	}
	// one pointer hop through the first cell
	cell := parts[0]
	if cell == "*" {
		cell = ""
	}
	for c := range st.content(Loc{l.o, joinCell(l.cell, cell)}) {
		st.walkFrom(c, parts[1:], out)
	}
}

func (st *fstate) mapGuard(g string, args []LocSet) []string {
	// guards are "P<i>.<path>.<cell>": map the root object only when it is a parameter
	i := strings.IndexByte(g, '.')
	root := g
	rest := ""
	if i >= 0 {
		root, rest = g[:i], g[i+1:]
	}
	var n int
	if _, err := fmt.Sscanf(root, "P%d", &n); err != nil || n >= len(args) {
		return nil
	}
	var out []string
	for l := range args[n] {
		if rest == "" {
			out = append(out, l.String())
			continue
		}
		parts := strings.Split(rest, ".")
		last := parts[len(parts)-1]
		tmp := LocSet{}
		st.walkFrom(l, parts[:len(parts)-1], tmp)
		for m := range tmp {
			out = append(out, Loc{m.o, joinCell(m.cell, last)}.String())
		}
	}
	return out
}

// reach returns every location reachable from ls through the edges of s.
func (e *Effects) reach(s *Summary, ls LocSet) LocSet {
	out := LocSet{}
	var todo []Loc
	for l := range ls {
		todo = append(todo, l)
	}
	for len(todo) > 0 {
		l := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if out[l] {
			continue
		}
		out[l] = true
		if l.o.root != -1 {
			continue // everything below a parameter object is parameter memory
		}
		for k, v := range s.edges {
			if k.o == l.o {
				for m := range v {
					if !out[m] {
						todo = append(todo, m)
					}
				}
			}
		}
	}
	return out
}

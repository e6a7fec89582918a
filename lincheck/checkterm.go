package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C21"] = checkTermination }

// natLoop is a natural loop of the control-flow graph.
type natLoop struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	latch  []*ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

// loopsOf finds the natural loops of fn (back edges to a dominating header) and reports irreducible cycles.
func loopsOf(fn *ssa.Function) (loops []*natLoop, irreducible bool) {
	by := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := by[s]
				if l == nil {
					l = &natLoop{fn: fn, header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					by[s] = l
					loops = append(loops, l)
				}
				l.latch = append(l.latch, b)
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	// any cycle left after removing the back edges is irreducible
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if s.Dominates(b) {
				continue
			}
			if state[s] == 1 {
				irreducible = true
			} else if state[s] == 0 {
				dfs(s)
			}
		}
		state[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	sort.Slice(loops, func(i, j int) bool { return loops[i].header.Index < loops[j].header.Index })
	return
}

// memEffects: the memory cells (by type: struct field or element type) a function may write, transitively.
type memEffects struct {
	c      *Ctx
	writes map[*ssa.Function]map[string]bool
	busy   map[*ssa.Function]bool
}

func cellOf(addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return "f:" + typeName(x.X.Type()) + "." + structField(x.X.Type(), x.Field)
	case *ssa.Global:
		return "g:" + x.Name()
	}
	if p, ok := addr.Type().Underlying().(*types.Pointer); ok {
		return "t:" + p.Elem().String()
	}
	return "?"
}

// clash: may a write to cell w change what a read of cell r sees?
func clash(w, r string) bool {
	if w == r || w == "?" || r == "?" {
		return true
	}
	// a whole-struct store changes its fields
	if strings.HasPrefix(w, "t:") && strings.HasPrefix(r, "f:") {
		tn := w[strings.LastIndexAny(w, "./")+1:]
		return strings.HasPrefix(r, "f:"+tn+".")
	}
	return false
}

func (m *memEffects) of(fn *ssa.Function) map[string]bool {
	if w, ok := m.writes[fn]; ok {
		return w
	}
	w := map[string]bool{}
	m.writes[fn] = w
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			m.instr(in, w)
		}
	}
	return w
}

func (m *memEffects) instr(in ssa.Instruction, w map[string]bool) {
	switch x := in.(type) {
	case *ssa.Store:
		if _, ok := x.Addr.(*ssa.Alloc); ok && !x.Addr.(*ssa.Alloc).Heap {
			w["a:"+x.Addr.Name()+x.Parent().String()] = true
			return
		}
		w[cellOf(x.Addr)] = true
	case *ssa.MapUpdate:
		w["?"] = true
	case ssa.CallInstruction:
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			if b.Name() == "copy" || b.Name() == "append" {
				if s, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
					w["t:"+s.Elem().String()] = true
				}
			}
			return
		}
		for _, f := range m.c.callees(cc) {
			for k := range m.of(f) {
				w[k] = true
			}
		}
	}
}

// callees: the package functions a call may reach (class hierarchy).
func (c *Ctx) callees(cc *ssa.CallCommon) []*ssa.Function {
	if f := cc.StaticCallee(); f != nil {
		if f.Blocks != nil && c.inPkg(f) {
			return []*ssa.Function{f}
		}
		return nil
	}
	if cc.IsInvoke() {
		var out []*ssa.Function
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		for _, f := range c.P.Funcs {
			if f.Name() == cc.Method.Name() && f.Signature.Recv() != nil && it != nil && types.Implements(f.Signature.Recv().Type(), it) {
				out = append(out, f)
			}
		}
		return out
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		return []*ssa.Function{mc.Fn.(*ssa.Function)}
	}
	return nil
}

func (c *Ctx) inPkg(f *ssa.Function) bool {
	for _, g := range c.P.Funcs {
		if g == f {
			return true
		}
	}
	return false
}

// ilin is a linear integer expression over symbols.
type ilin struct {
	c int64
	t map[string]int64
}

func (a ilin) add(b ilin, k int64) ilin {
	r := ilin{a.c + k*b.c, map[string]int64{}}
	for s, v := range a.t {
		r.t[s] = v
	}
	for s, v := range b.t {
		r.t[s] += k * v
		if r.t[s] == 0 {
			delete(r.t, s)
		}
	}
	return r
}

// key of the linear part with canonical sign; sign is -1 when the part was negated.
func (a ilin) key() (string, int64) {
	var ks []string
	for s := range a.t {
		ks = append(ks, s)
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return "", 1
	}
	sg := int64(1)
	if a.t[ks[0]] < 0 {
		sg = -1
	}
	var sb strings.Builder
	for _, s := range ks {
		fmt.Fprintf(&sb, "%+d*%s ", sg*a.t[s], s)
	}
	return sb.String(), sg
}

// rng is what is known about a linear part on one path.
type rng struct {
	lo, hi     int64
	hasLo, has bool // has: hi known
	ne         []int64
	part       ilin
}

type ifacts map[string]*rng

func (f ifacts) clone() ifacts {
	g := ifacts{}
	for k, v := range f {
		w := *v
		w.ne = append([]int64{}, v.ne...)
		g[k] = &w
	}
	return g
}

func (f ifacts) get(l ilin) (*rng, int64, string) {
	k, sg := l.key()
	r := f[k]
	if r == nil {
		p := ilin{0, map[string]int64{}}
		for s, v := range l.t {
			p.t[s] = sg * v
		}
		r = &rng{part: p}
	}
	return r, sg, k
}

func (r *rng) ok() bool {
	for {
		ch := false
		for _, n := range r.ne {
			if r.hasLo && r.lo == n {
				r.lo++
				ch = true
			}
			if r.has && r.hi == n {
				r.hi--
				ch = true
			}
		}
		if r.hasLo && r.has && r.lo > r.hi {
			return false
		}
		if !ch {
			return true
		}
	}
}

// assume adds "l op 0"; false when contradictory.
func (f ifacts) assume(l ilin, op token.Token) bool {
	if len(l.t) == 0 {
		return constCmp(l.c, op)
	}
	r, sg, k := f.get(l)
	f[k] = r
	// l = sg*part + c ; l op 0  <=>  part op' -sg*c
	v := -sg * l.c
	if sg < 0 {
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
	}
	setHi := func(h int64) {
		if !r.has || h < r.hi {
			r.hi, r.has = h, true
		}
	}
	setLo := func(h int64) {
		if !r.hasLo || h > r.lo {
			r.lo, r.hasLo = h, true
		}
	}
	switch op {
	case token.LSS:
		setHi(v - 1)
	case token.LEQ:
		setHi(v)
	case token.GTR:
		setLo(v + 1)
	case token.GEQ:
		setLo(v)
	case token.EQL:
		setLo(v)
		setHi(v)
	case token.NEQ:
		r.ne = append(r.ne, v)
	}
	return r.ok()
}

func constCmp(c int64, op token.Token) bool {
	switch op {
	case token.LSS:
		return c < 0
	case token.LEQ:
		return c <= 0
	case token.GTR:
		return c > 0
	case token.GEQ:
		return c >= 0
	case token.EQL:
		return c == 0
	}
	return c != 0
}

// lower returns a lower bound of l under the ifacts.
func (f ifacts) lower(l ilin) (int64, bool) {
	if len(l.t) == 0 {
		return l.c, true
	}
	r, sg, _ := f.get(l)
	if sg > 0 && r.hasLo {
		return r.lo + l.c, true
	}
	if sg < 0 && r.has {
		return -r.hi + l.c, true
	}
	return 0, false
}

func (f ifacts) upper(l ilin) (int64, bool) {
	v, ok := f.lower(ilin{}.add(l, -1))
	return -v, ok
}

func negOp(op token.Token) token.Token {
	return map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.LEQ: token.GTR, token.GTR: token.LEQ, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
}

// cyc is one acyclic path through a loop body from the header back to it.
type cyc struct {
	after   map[string]ilin // header phi -> value at the end
	f       ifacts
	calls   map[string]bool // callee name | receiver key
	changed bool
}

type loopAn struct {
	c      *Ctx
	m      *memEffects
	l      *natLoop
	all    []*natLoop
	wr     map[string]bool
	inv    map[ssa.Value]int
	cycs   []*cyc
	steps  int
	over   bool
	active map[*ssa.Function]bool
	inner  map[*ssa.BasicBlock]bool // headers of inner loops
	relev  map[ssa.Value]bool
	hdrPhi map[*ssa.Phi]bool
	inl    map[*ssa.Call]bool
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// invariant: v has the same value in every iteration of the loop.
func (a *loopAn) invariant(v ssa.Value) bool {
	if s, ok := a.inv[v]; ok {
		return s == 1
	}
	a.inv[v] = 0
	r := a.invariant1(v)
	if r {
		a.inv[v] = 1
	}
	return r
}

func (a *loopAn) invariant1(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return true // parameters, constants, globals, functions
	}
	if in.Parent() != a.l.fn {
		return false // of a callee walked through
	}
	if in.Block() == nil || !a.l.body[in.Block()] {
		return true
	}
	opsInv := func() bool {
		for _, o := range in.Operands(nil) {
			if *o != nil && !a.invariant(*o) {
				return false
			}
		}
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.TypeAssert, *ssa.Extract, *ssa.Slice:
		return opsInv()
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return opsInv()
		}
		if !opsInv() {
			return false
		}
		if al, ok := x.X.(*ssa.Alloc); ok && !al.Heap {
			return !a.wr["a:"+al.Name()+al.Parent().String()]
		}
		cell := cellOf(x.X)
		for w := range a.wr {
			if clash(w, cell) {
				return false
			}
		}
		return true
	case *ssa.Call:
		cc := x.Common()
		if !opsInv() {
			return false
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
		if cc.IsInvoke() {
			n := cc.Method.Name()
			return len(cc.Args) == 0 && (strings.HasSuffix(n, "Dimension") || n == "Len" || n == "Size")
		}
		f := cc.StaticCallee()
		if f == nil {
			return false
		}
		if f.Package() != nil && f.Package().Pkg.Path() == "math" {
			return true
		}
		if f.Blocks == nil || !a.c.inPkg(f) {
			return false
		}
		n := f.Name()
		if f.Signature.Recv() != nil && len(cc.Args) == 1 && strings.HasSuffix(n, "Dimension") {
			return true
		}
		return len(a.m.of(f)) == 0 && !a.readsMemory(f, map[*ssa.Function]bool{})
	}
	return false
}

func (a *loopAn) readsMemory(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL {
					cell := cellOf(x.X)
					for w := range a.wr {
						if clash(w, cell) {
							return true
						}
					}
				}
			case ssa.CallInstruction:
				for _, g := range a.c.callees(x.Common()) {
					if a.readsMemory(g, seen) {
						return true
					}
				}
				if x.Common().IsInvoke() && !strings.HasSuffix(x.Common().Method.Name(), "Dimension") {
					return true
				}
			}
		}
	}
	return false
}

// symKey names an invariant value by structure, so that recomputations coincide.
func symKey(v ssa.Value, depth int) string {
	if depth > 6 {
		return v.Name()
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.String()
	case *ssa.BinOp:
		return "(" + symKey(x.X, depth+1) + x.Op.String() + symKey(x.Y, depth+1) + ")"
	case *ssa.Convert:
		return x.Type().String() + "(" + symKey(x.X, depth+1) + ")"
	case *ssa.UnOp:
		return x.Op.String() + symKey(x.X, depth+1)
	case *ssa.FieldAddr:
		return symKey(x.X, depth+1) + "." + structField(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		return symKey(x.X, depth+1) + "[" + symKey(x.Index, depth+1) + "]"
	case *ssa.Call:
		cc := x.Common()
		n := ""
		if cc.IsInvoke() {
			n = symKey(cc.Value, depth+1) + "." + cc.Method.Name()
		} else {
			n = cc.Value.Name()
		}
		for _, y := range cc.Args {
			n += "," + symKey(y, depth+1)
		}
		return "call " + n
	}
	return v.Name()
}

func (a *loopAn) eval(v ssa.Value, env map[ssa.Value]ssa.Value) ilin {
	for i := 0; i < 50; i++ {
		if w, ok := env[v]; ok && w != v {
			v = w
			continue
		}
		break
	}
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		if n, ok := constant.Int64Val(c.Value); ok {
			return ilin{n, nil}
		}
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			if n, ok := a.c.globalConst(g); ok {
				return ilin{n, nil}
			}
		}
	case *ssa.Phi:
		if a.hdrPhi[x] {
			return ilin{0, map[string]int64{"phi:" + x.Name(): 1}}
		}
	case *ssa.BinOp:
		if !isIntType(x.Type()) {
			break
		}
		l, r := a.eval(x.X, env), a.eval(x.Y, env)
		switch x.Op {
		case token.ADD:
			return l.add(r, 1)
		case token.SUB:
			return l.add(r, -1)
		case token.MUL:
			if len(l.t) == 0 {
				return ilin{}.add(r, l.c)
			}
			if len(r.t) == 0 {
				return ilin{}.add(l, r.c)
			}
		}
	case *ssa.Convert:
		if isIntType(x.Type()) && isIntType(x.X.Type()) {
			return a.eval(x.X, env)
		}
	}
	if a.invariant(v) {
		return ilin{0, map[string]int64{"inv:" + symKey(v, 0): 1}}
	}
	if v.Parent() != nil && v.Parent() != a.l.fn {
		return ilin{0, map[string]int64{"val:" + fname(v.Parent()) + "/" + v.Name(): 1}}
	}
	return ilin{0, map[string]int64{"val:" + v.Name(): 1}}
}

// globalConst: the value of a package variable that only its initialiser writes, with a constant.
func (c *Ctx) globalConst(g *ssa.Global) (int64, bool) {
	var val *ssa.Const
	n := 0
	for _, fn := range append([]*ssa.Function{c.P.SPkg.Func("init")}, c.P.Funcs...) {
		if fn == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o != ssa.Value(g) {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if k, ok := x.Val.(*ssa.Const); ok && x.Addr == ssa.Value(g) && fn.Name() == "init" {
							if val != k {
								val = k
								n++
							}
							continue
						}
					}
					return 0, false
				}
			}
		}
	}
	if n != 1 || val.Value == nil || val.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(val.Value)
}

// cond assumes cond == truth; false when contradictory.
func (a *loopAn) cond(v ssa.Value, truth bool, env map[ssa.Value]ssa.Value, f ifacts) bool {
	for i := 0; i < 50; i++ {
		if w, ok := env[v]; ok && w != v {
			v = w
			continue
		}
		break
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value) == truth
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.cond(x.X, !truth, env, f)
		}
	case *ssa.BinOp:
		op := x.Op
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		default:
			op = token.ILLEGAL
		}
		if op != token.ILLEGAL && isIntType(x.X.Type()) {
			if !truth {
				op = negOp(op)
			}
			l, r := a.eval(x.X, env), a.eval(x.Y, env)
			ok := f.assume(l.add(r, -1), op)
			// l < min(p, q) bounds l by p and by q
			switch op {
			case token.LSS, token.LEQ, token.EQL:
				for _, y := range minArgs(x.Y, env) {
					o := op
					if o == token.EQL {
						o = token.LEQ
					}
					ok = f.assume(l.add(a.eval(y, env), -1), o) && ok
				}
			case token.GTR, token.GEQ:
				for _, y := range minArgs(x.X, env) {
					ok = f.assume(a.eval(y, env).add(r, -1), op) && ok
				}
			}
			return ok
		}
		if op == token.EQL || op == token.NEQ {
			if k, ok := x.Y.(*ssa.Const); ok && k.Value == nil {
				if n := nilness(x.X, env); n != 0 {
					return ((n < 0) == (op == token.EQL)) == truth
				}
			}
		}
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && (op == token.EQL || op == token.NEQ) {
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil {
				return a.cond(x.X, (constant.BoolVal(c.Value) == (op == token.EQL)) == truth, env, f)
			}
		}
	}
	// opaque: consistent per value
	n := int64(0)
	if truth {
		n = 1
	}
	name := v.Name()
	if v.Parent() != nil && v.Parent() != a.l.fn {
		name = fname(v.Parent()) + "/" + name
	}
	return f.assume(ilin{-n, map[string]int64{"bool:" + name: 1}}, token.EQL)
}

// nilness of a value: -1 nil, 1 not nil, 0 unknown.
func nilness(v ssa.Value, env map[ssa.Value]ssa.Value) int {
	for i := 0; i < 50; i++ {
		w, ok := env[v]
		if !ok || w == v {
			break
		}
		v = w
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return -1
		}
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeClosure:
		return 1
	}
	return 0
}

// minArgs: the integer arguments of int(math.Min(float64(p), float64(q))).
func minArgs(v ssa.Value, env map[ssa.Value]ssa.Value) []ssa.Value {
	for i := 0; i < 50; i++ {
		w, ok := env[v]
		if !ok || w == v {
			break
		}
		v = w
	}
	cv, ok := v.(*ssa.Convert)
	if !ok {
		return nil
	}
	cl, ok := cv.X.(*ssa.Call)
	if !ok {
		return nil
	}
	f := cl.Common().StaticCallee()
	if f == nil || f.Name() != "Min" || f.Package() == nil || f.Package().Pkg.Path() != "math" {
		return nil
	}
	var out []ssa.Value
	for _, x := range cl.Common().Args {
		if c, ok := x.(*ssa.Convert); ok && isIntType(c.X.Type()) {
			out = append(out, c.X)
		}
	}
	return out
}

// analyse enumerates the cycles of the loop.
func (a *loopAn) analyse() {
	a.hdrPhi = map[*ssa.Phi]bool{}
	a.active = map[*ssa.Function]bool{}
	a.inner = map[*ssa.BasicBlock]bool{}
	for _, o := range a.all {
		if o != a.l && a.l.body[o.header] {
			a.inner[o.header] = true
		}
	}
	a.wr = map[string]bool{}
	for b := range a.l.body {
		for _, in := range b.Instrs {
			a.m.instr(in, a.wr)
		}
	}
	a.inv = map[ssa.Value]int{}
	for _, in := range a.l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			a.hdrPhi[p] = true
		}
	}
	a.relevance()
	a.walk(a.l.header, map[ssa.Value]ssa.Value{}, ifacts{}, map[string]bool{})
}

// relevance: the values integer header phis and integer tests of the loop depend on.
func (a *loopAn) relevance() {
	a.relev = map[ssa.Value]bool{}
	a.inl = map[*ssa.Call]bool{}
	var mark func(v ssa.Value)
	mark = func(v ssa.Value) {
		if a.relev[v] {
			return
		}
		in, ok := v.(ssa.Instruction)
		if !ok || in.Block() == nil || !a.l.body[in.Block()] {
			return
		}
		a.relev[v] = true
		if p, ok := v.(*ssa.Phi); ok {
			if a.inner[p.Block()] {
				return
			}
			for _, e := range p.Edges {
				mark(e)
			}
			return
		}
		cl, _ := v.(*ssa.Call)
		if e, ok := v.(*ssa.Extract); ok {
			cl, _ = e.Tuple.(*ssa.Call)
		}
		if cl != nil {
			if f := cl.Common().StaticCallee(); f != nil && f.Blocks != nil && a.c.inPkg(f) && !a.invariant(v) {
				a.inl[cl] = true
				for _, x := range cl.Common().Args {
					mark(x)
				}
			}
		}
		switch v.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.Convert:
			for _, o := range in.Operands(nil) {
				mark(*o)
			}
		}
	}
	for p := range a.hdrPhi {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			mark(p)
		}
	}
	for b := range a.l.body {
		if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			exits := false
			for _, s := range b.Succs {
				if !a.l.body[s] {
					exits = true
				}
			}
			if exits {
				mark(br.Cond)
			}
		}
	}
}

// skippable: the branch at b rejoins inside the loop without affecting anything relevant; returns the join.
func (a *loopAn) skippable(b *ssa.BasicBlock) *ssa.BasicBlock {
	// region: blocks reachable from the successors before a common join
	region := map[*ssa.BasicBlock]bool{}
	var join *ssa.BasicBlock
	// candidate joins: blocks dominated by b, with every path from b inside the loop passing through them
	cand := []*ssa.BasicBlock{}
	for x := range a.l.body {
		if x != b && x != a.l.header && b.Dominates(x) {
			cand = append(cand, x)
		}
	}
	sort.Slice(cand, func(i, j int) bool { return cand[i].Index < cand[j].Index })
	for _, j := range cand {
		ok := true
		reg := map[*ssa.BasicBlock]bool{}
		st := append([]*ssa.BasicBlock{}, b.Succs...)
		reached := false
		for len(st) > 0 && ok {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if x == j {
				reached = true
				continue
			}
			if reg[x] {
				continue
			}
			if !a.l.body[x] || x == a.l.header || x == b {
				ok = false
				break
			}
			reg[x] = true
			st = append(st, x.Succs...)
		}
		if ok && reached && (join == nil || len(reg) < len(region)) {
			join, region = j, reg
		}
	}
	if join == nil {
		return nil
	}
	for x := range region {
		if a.iterCall(x) {
			return nil
		}
	}
	for _, in := range join.Instrs {
		if p, ok := in.(*ssa.Phi); ok && a.relev[p] {
			return nil
		}
	}
	return join
}

func (a *loopAn) iterCall(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if cl, ok := in.(*ssa.Call); ok && callName(cl.Common()) == "Next" {
			return true
		}
	}
	return false
}

func callName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return f.Name()
	}
	return ""
}

func cloneEnv(m map[ssa.Value]ssa.Value) map[ssa.Value]ssa.Value {
	r := map[ssa.Value]ssa.Value{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (a *loopAn) walk(b *ssa.BasicBlock, env map[ssa.Value]ssa.Value, f ifacts, calls map[string]bool) {
	a.walkAt(b, 0, env, f, calls)
}

// through follows the paths of a callee to its returns.
func (a *loopAn) through(cl *ssa.Call, env map[ssa.Value]ssa.Value, f ifacts, cont func(env map[ssa.Value]ssa.Value, f ifacts)) bool {
	fn := cl.Common().StaticCallee()
	if a.active[fn] || len(a.active) > 3 {
		return false
	}
	loops, irr := loopsOf(fn)
	if irr {
		return false
	}
	heads := map[*ssa.BasicBlock]bool{}
	for _, l := range loops {
		heads[l.header] = true
	}
	e0 := cloneEnv(env)
	for i, p := range fn.Params {
		w := cl.Common().Args[i]
		if x, ok := env[w]; ok {
			w = x
		}
		e0[p] = w
	}
	var walk func(b *ssa.BasicBlock, env map[ssa.Value]ssa.Value, f ifacts)
	walk = func(b *ssa.BasicBlock, env map[ssa.Value]ssa.Value, f ifacts) {
		a.steps++
		if a.steps > 200000 {
			a.over = true
		}
		if a.over {
			return
		}
		step := func(s *ssa.BasicBlock, f ifacts) {
			if s.Dominates(b) {
				return
			}
			e2, cloned := env, false
			if !heads[s] {
				pi := -1
				for i, p := range s.Preds {
					if p == b {
						pi = i
					}
				}
				for _, in := range s.Instrs {
					if p, ok := in.(*ssa.Phi); ok {
						w := p.Edges[pi]
						if x, ok := env[w]; ok {
							w = x
						}
						if !cloned {
							e2, cloned = cloneEnv(env), true
						}
						e2[p] = w
					}
				}
			}
			walk(s, e2, f)
		}
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.If:
			for i, s := range b.Succs {
				f2 := f.clone()
				if a.cond(x.Cond, i == 0, env, f2) {
					step(s, f2)
				}
			}
		case *ssa.Return:
			e2 := cloneEnv(env)
			res := func(v ssa.Value) ssa.Value {
				if w, ok := env[v]; ok {
					return w
				}
				return v
			}
			if len(x.Results) == 1 {
				e2[cl] = res(x.Results[0])
			} else {
				for _, r := range *cl.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok {
						e2[ex] = res(x.Results[ex.Index])
					}
				}
			}
			delete(a.active, fn)
			cont(e2, f)
			a.active[fn] = true
		default:
			for _, s := range b.Succs {
				step(s, f)
			}
		}
	}
	a.active[fn] = true
	walk(fn.Blocks[0], e0, f)
	delete(a.active, fn)
	return true
}

func (a *loopAn) walkAt(b *ssa.BasicBlock, from int, env map[ssa.Value]ssa.Value, f ifacts, calls map[string]bool) {
	a.steps++
	if a.steps > 200000 || a.over {
		a.over = true
		return
	}
	for k := from; k < len(b.Instrs); k++ {
		in := b.Instrs[k]
		if cl, ok := in.(*ssa.Call); ok && a.inl[cl] {
			k := k
			if a.through(cl, env, f, func(e2 map[ssa.Value]ssa.Value, f2 ifacts) { a.walkAt(b, k+1, e2, f2, calls) }) {
				return
			}
		}
		if cl, ok := in.(*ssa.Call); ok {
			cc := cl.Common()
			n := callName(cc)
			if n == "Next" {
				calls = copySet(calls)
				var rv ssa.Value
				if cc.IsInvoke() {
					rv = cc.Value
				} else if len(cc.Args) > 0 {
					rv = cc.Args[0]
				}
				if rv != nil && a.invariant(rv) {
					calls["Next|"+symKey(rv, 0)] = true
				}
			}
		}
	}
	go1 := func(s *ssa.BasicBlock, env map[ssa.Value]ssa.Value, f ifacts) {
		if !a.l.body[s] {
			return
		}
		if s == a.l.header {
			a.finish(b, env, f, calls)
			return
		}
		if s.Dominates(b) {
			return // back edge of an inner loop
		}
		e2 := env
		if !a.inner[s] {
			pi := -1
			for i, p := range s.Preds {
				if p == b {
					pi = i
				}
			}
			var upd []*ssa.Phi
			for _, in := range s.Instrs {
				if p, ok := in.(*ssa.Phi); ok {
					upd = append(upd, p)
				}
			}
			if len(upd) > 0 {
				e2 = cloneEnv(env)
				for _, p := range upd {
					w := p.Edges[pi]
					if x, ok := env[w]; ok {
						w = x
					}
					e2[p] = w
				}
			}
		}
		a.walk(s, e2, f, calls)
	}
	last := b.Instrs[len(b.Instrs)-1]
	if br, ok := last.(*ssa.If); ok {
		if j := a.skippable(b); j != nil {
			// the branch does not matter: its phis are opaque
			a.walk(j, env, f, calls)
			return
		}
		for i, s := range b.Succs {
			f2 := f.clone()
			if a.cond(br.Cond, i == 0, env, f2) {
				go1(s, env, f2)
			}
		}
		return
	}
	for _, s := range b.Succs {
		go1(s, env, f)
	}
}

func copySet(m map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k := range m {
		r[k] = true
	}
	return r
}

func (a *loopAn) finish(from *ssa.BasicBlock, env map[ssa.Value]ssa.Value, f ifacts, calls map[string]bool) {
	pi := -1
	for i, p := range a.l.header.Preds {
		if p == from {
			pi = i
		}
	}
	c := &cyc{after: map[string]ilin{}, f: f, calls: calls}
	nextEnv := map[ssa.Value]ssa.Value{}
	for _, in := range a.l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		nextEnv[p] = p.Edges[pi]
		if x, ok := env[p.Edges[pi]]; ok {
			nextEnv[p] = x
		}
		if isIntType(p.Type()) {
			c.after["phi:"+p.Name()] = a.eval(p.Edges[pi], env)
		}
	}
	// does the next pass through the header leave the loop?
	if br, ok := a.l.header.Instrs[len(a.l.header.Instrs)-1].(*ssa.If); ok {
		stay := false
		for i, s := range a.l.header.Succs {
			if !a.l.body[s] {
				continue
			}
			f2 := f.clone()
			if a.condNext(br.Cond, i == 0, nextEnv, env, f2) {
				stay = true
			}
		}
		if !stay {
			return
		}
	}
	a.cycs = append(a.cycs, c)
}

// condNext evaluates the header's test at the start of the next iteration: header phis have their
// new values, other header instructions are recomputed (only phis and tests of phis are followed).
func (a *loopAn) condNext(v ssa.Value, truth bool, next, env map[ssa.Value]ssa.Value, f ifacts) bool {
	if p, ok := v.(*ssa.Phi); ok && a.hdrPhi[p] {
		return a.cond(next[p], truth, env, f)
	}
	if x, ok := v.(*ssa.BinOp); ok && isIntType(x.X.Type()) {
		op := x.Op
		if !truth {
			op = negOp(op)
		}
		if op == token.ILLEGAL {
			return true
		}
		ev := func(y ssa.Value) (ilin, bool) {
			if p, ok := y.(*ssa.Phi); ok && a.hdrPhi[p] {
				return a.eval(next[p], env), true
			}
			if a.invariant(y) {
				return a.eval(y, env), true
			}
			return ilin{}, false
		}
		l, ok1 := ev(x.X)
		r, ok2 := ev(x.Y)
		if ok1 && ok2 {
			return f.assume(l.add(r, -1), op)
		}
	}
	return true
}

func isubst(l ilin, after map[string]ilin) ilin {
	r := ilin{l.c, map[string]int64{}}
	for s, k := range l.t {
		if x, ok := after[s]; ok {
			r = r.add(x, k)
		} else {
			r = r.add(ilin{0, map[string]int64{s: 1}}, k)
		}
	}
	return r
}

func stable(l ilin) bool {
	hasPhi := false
	for s := range l.t {
		if strings.HasPrefix(s, "phi:") {
			hasPhi = true
		} else if !strings.HasPrefix(s, "inv:") {
			return false
		}
	}
	return hasPhi
}

// initial values of a linear expression on entry to the loop; ok when a non-negative constant (or length) on every entry.
func (a *loopAn) initNonNeg(l ilin) bool {
	phis := map[string]*ssa.Phi{}
	for p := range a.hdrPhi {
		phis["phi:"+p.Name()] = p
	}
	for i, pr := range a.l.header.Preds {
		if a.l.body[pr] {
			continue
		}
		v := ilin{l.c, nil}
		for s, k := range l.t {
			if p, ok := phis[s]; ok {
				v = v.add(a.eval(p.Edges[i], nil), k)
			} else {
				v = v.add(ilin{0, map[string]int64{s: 1}}, k)
			}
		}
		if v.c < 0 {
			return false
		}
		for s, k := range v.t {
			if k < 0 || !(strings.Contains(s, "call len") || strings.Contains(s, "Dimension")) {
				return false
			}
		}
	}
	return true
}

// ranked searches a lexicographic ranking function for the cycles.
func (a *loopAn) ranked() (string, bool) {
	cands := map[string]ilin{}
	nes := map[string]ilin{}
	for _, c := range a.cycs {
		for k, r := range c.f {
			if !stable(r.part) {
				continue
			}
			if r.hasLo {
				cands["+"+k] = r.part
			}
			if r.has {
				cands["-"+k] = ilin{}.add(r.part, -1)
			}
			for _, n := range r.ne {
				nes[fmt.Sprintf("+%s-%d", k, n)] = r.part.add(ilin{n, nil}, -1)
				nes[fmt.Sprintf("-%s+%d", k, n)] = ilin{n, nil}.add(r.part, -1)
			}
		}
	}
	var names []string
	for k := range cands {
		names = append(names, k)
	}
	sort.Strings(names)
	var nnames []string
	for k := range nes {
		nnames = append(nnames, k)
	}
	sort.Strings(nnames)
	left := append([]*cyc{}, a.cycs...)
	var used []string
	try := func(name string, fn ilin, ne bool) bool {
		var rest []*cyc
		dec := 0
		for _, c := range left {
			d := isubst(fn, c.after).add(fn, -1)
			up, ok := c.f.upper(d)
			if !ok || up > 0 {
				return false
			}
			if ne {
				lo, ok := c.f.lower(d)
				if !ok || lo < -1 {
					return false
				}
				_, nz := c.neFact(fn)
				if up == -1 && nz {
					dec++
					continue
				}
				if lo < 0 {
					return false
				}
			} else if _, bounded := c.f.lower(fn); bounded && up <= -1 {
				dec++
				continue
			}
			rest = append(rest, c)
		}
		if dec == 0 {
			return false
		}
		if ne {
			if !a.initNonNeg(fn) {
				return false
			}
			// cycles already ranked by earlier components may reset the counter, but not below zero
			for _, c := range a.cycs {
				d := isubst(fn, c.after)
				up, ok := c.f.upper(d.add(fn, -1))
				if ok && up <= 0 {
					if lo, ok := c.f.lower(d.add(fn, -1)); ok && lo >= -1 {
						continue
					}
				}
				if lo, ok := c.f.lower(d); ok && lo >= 0 {
					continue
				}
				return false
			}
		}
		left = rest
		used = append(used, strings.TrimSpace(name))
		return true
	}
	for len(left) > 0 {
		ok := false
		for _, n := range names {
			if try(n, cands[n], false) {
				ok = true
				break
			}
		}
		if !ok {
			for _, n := range nnames {
				if try(n, nes[n], true) {
					ok = true
					break
				}
			}
		}
		if !ok {
			return strings.Join(used, ", then "), false
		}
	}
	return strings.Join(used, ", then "), true
}

// neFact: the path knows fn != 0.
func (c *cyc) neFact(fn ilin) (int64, bool) {
	r, sg, _ := c.f.get(fn)
	v := -sg * fn.c
	for _, n := range r.ne {
		if n == v {
			return n, true
		}
	}
	if lo, ok := c.f.lower(fn); ok && lo > 0 {
		return 0, true
	}
	if hi, ok := c.f.upper(fn); ok && hi < 0 {
		return 0, true
	}
	return 0, false
}

// iterator: the loop asks HasNext of one cursor and every cycle calls Next on it; or it ranges over a map or string.
func (a *loopAn) iterator() (string, bool) {
	for b := range a.l.body {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		exits := false
		for _, s := range b.Succs {
			if !a.l.body[s] {
				exits = true
			}
		}
		dom := true
		for _, l := range a.l.latch {
			if !b.Dominates(l) {
				dom = false
			}
		}
		if !exits || !dom {
			continue
		}
		v := br.Cond
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			v = u.X
		}
		if e, ok := v.(*ssa.Extract); ok {
			if _, ok := e.Tuple.(*ssa.Next); ok {
				return "range", true
			}
		}
		cl, ok := v.(*ssa.Call)
		if !ok || callName(cl.Common()) != "HasNext" {
			continue
		}
		cc := cl.Common()
		var rv ssa.Value
		if cc.IsInvoke() {
			rv = cc.Value
		} else if len(cc.Args) > 0 {
			rv = cc.Args[0]
		}
		if rv == nil || !a.invariant(rv) {
			continue
		}
		okAll := true
		for _, c := range a.cycs {
			if !c.calls["Next|"+symKey(rv, 0)] {
				okAll = false
			}
		}
		if okAll {
			return "cursor", true
		}
	}
	return "", false
}

// reachFrom: package functions reachable from fn through calls, closures and function values.
func (c *Ctx) reachFrom(fn *ssa.Function, stop map[*ssa.Function]bool) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	st := []*ssa.Function{fn}
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[f] || stop[f] {
			continue
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					st = append(st, c.callees(ci.Common())...)
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					st = append(st, mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	return seen
}

func checkTermination(c *Ctx) {
	c.Explain = "Ranking-function analysis over SSA: for every natural loop of the package, the acyclic paths from its header back to it (inner loops summarised by arbitrary values of what they change), with the linear integer tests passed on each and the change of every loop variable. Rule: a lexicographic combination of linear functions of the loop variables, each bounded by a test on the path, decreases on every path; loops over a cursor advance it on every path; no function calls itself, directly or through others. Together: every operation ends, and the QR/QL iterations of the eigen decomposition and the Schur transform end after their cap, whatever the numbers."
	c.Assume = []string{"integers do not overflow", "a cursor's HasNext turns false after finitely many Next calls", "user visitors, function values and implementations return",
		"the dimensions of an operand do not change while an operation runs"}
	c.Floor = 250
	m := &memEffects{c: c, writes: map[*ssa.Function]map[string]bool{}}
	// the Golub-Kahan iteration of the singular value decomposition has no cap; nothing is claimed about it
	var svd *ssa.Function
	for _, fn := range c.api() {
		if fn.Name() == "NewSingularValueDecomposition" && fn.Signature.Recv() == nil {
			svd = fn
		}
	}
	onlySVD := map[*ssa.Function]bool{}
	if svd != nil {
		for f := range c.reachFrom(svd, nil) {
			onlySVD[f] = true
		}
		for _, fn := range c.api() {
			if fn == svd {
				continue
			}
			for f := range c.reachFrom(fn, map[*ssa.Function]bool{svd: true}) {
				delete(onlySVD, f)
			}
		}
		onlySVD[svd] = true
	}
	nl, paths := 0, 0
	for _, fn := range c.P.Funcs {
		if fn.Synthetic != "" && !strings.Contains(fn.Synthetic, "package init") && fn.Pos() == token.NoPos {
			continue
		}
		loops, irr := loopsOf(fn)
		if irr {
			c.undecided("loop-ends", fname(fn)+"/irreducible", fn.Pos(), "irreducible control flow")
		}
		for k, l := range loops {
			nl++
			construct := fmt.Sprintf("%s/loop%d", fname(fn), k+1)
			pos := loopPos(l)
			a := &loopAn{c: c, m: m, l: l, all: loops}
			a.analyse()
			paths += len(a.cycs)
			if how, ok := a.iterator(); ok {
				c.add("cursor-advances", construct, c.P.posn(pos), "discharged", how)
				continue
			}
			if a.over {
				c.undecided("loop-ends", construct, pos, "too many paths through the loop")
				continue
			}
			how, ok := a.ranked()
			if ok {
				if len(a.cycs) == 0 {
					how = "no cycle is feasible"
				}
				c.add("loop-ends", construct, c.P.posn(pos), "discharged", how)
				continue
			}
			if onlySVD[fn] && how != "" && a.numeric() {
				// deflation is ranked, the steps between deflations are not
				c.undecided("loop-ends", construct, pos, "convergence of the singular value iteration is numerical")
				continue
			}
			if a.memoryTest() {
				c.undecided("loop-ends", construct, pos, "the loop is controlled by a variable held in memory")
				continue
			}
			if c.Trace {
				for _, cy := range a.cycs {
					fmt.Println(construct, "CYCLE")
					for k, v := range cy.after {
						fmt.Println("   ", k, "->", v)
					}
					for k, r := range cy.f {
						fmt.Println("      fact", k, *r)
					}
				}
			}
			c.bad("loop-ends", construct, pos, "no function of the loop's integer variables decreases on every path through the loop in %s: it may not end", fname(fn))
		}
	}
	c.Stats["loops"] = nl
	c.Stats["paths"] = paths
	c.recursion()
}

// memoryTest: an exit test of the loop reads an integer or boolean the loop keeps in memory.
func (a *loopAn) memoryTest() bool {
	seen := map[ssa.Value]bool{}
	var dep func(v ssa.Value) bool
	dep = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok || a.invariant(v) {
			return false
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				b, ok := x.Type().Underlying().(*types.Basic)
				return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
			}
			return dep(x.X)
		case *ssa.BinOp:
			return dep(x.X) || dep(x.Y)
		case *ssa.Phi:
			for _, o := range in.Operands(nil) {
				if dep(*o) {
					return true
				}
			}
		}
		return false
	}
	for b := range a.l.body {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for _, s := range b.Succs {
			if !a.l.body[s] && dep(br.Cond) {
				return true
			}
		}
	}
	return false
}

// numeric: every cycle changes floating-point memory.
func (a *loopAn) numeric() bool {
	return a.wr["t:float64"]
}

func loopPos(l *natLoop) token.Pos {
	for _, in := range l.header.Instrs {
		if p := in.Pos(); p.IsValid() {
			return p
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() {
				return p
			}
		}
	}
	return l.fn.Pos()
}

// recursion: cycles of the static call graph.
func (c *Ctx) recursion() {
	calls := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil && f.Blocks != nil && c.inPkg(f) {
						calls[fn] = append(calls[fn], f)
					}
				}
			}
		}
	}
	for _, fn := range c.P.Funcs {
		seen := map[*ssa.Function]bool{}
		st := append([]*ssa.Function{}, calls[fn]...)
		rec := false
		for len(st) > 0 {
			f := st[len(st)-1]
			st = st[:len(st)-1]
			if f == fn {
				rec = true
				break
			}
			if seen[f] {
				continue
			}
			seen[f] = true
			st = append(st, calls[f]...)
		}
		if fn.Parent() != nil || len(calls[fn]) == 0 {
			continue
		}
		if rec {
			c.bad("no-recursion", fname(fn), fn.Pos(), "%s can call itself through static calls: it may not end", fname(fn))
		} else {
			c.ok("no-recursion", fname(fn), fn.Pos())
		}
	}
}

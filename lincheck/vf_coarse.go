package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Coarse loops. Inside vpGeneric(func) a loop that only computes numbers is summarised by its
// modification set: every number and every array element it may change is an arbitrary value
// afterwards, whether an iteration returns or leaves is an arbitrary choice. What is derived
// after it holds whatever the loop computes. Loops that build structure (store slices or
// pointers) keep the precise summary.

// buildsStructure: the loop stores or appends references.
func (in *Interp) buildsStructure(body *ast.BlockStmt) bool {
	found := false
	ref := func(t types.Type) bool {
		if t == nil {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Interface, *types.Map:
			return true
		}
		return false
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for i, l := range x.Lhs {
				if ix, ok := l.(*ast.IndexExpr); ok && ref(in.typeOf(ix)) {
					if len(x.Rhs) != len(x.Lhs) || !in.fromSame(body, ix, x.Rhs[i]) {
						found = true
					}
				}
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) > 0 {
				if s, ok := in.typeOf(x.Args[0]).Underlying().(*types.Slice); ok && ref(s.Elem()) {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

// onlyLooks: the loop computes nothing that outlives it: it looks for a reason to leave early.
func (in *Interp) onlyLooks(body *ast.BlockStmt) bool {
	leaves, good := false, true
	local := func(e ast.Expr) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		if !ok {
			return false
		}
		if id.Name == "_" || in.info.Defs[id] != nil {
			return true
		}
		o := in.info.Uses[id]
		return o != nil && body.Pos() <= o.Pos() && o.Pos() < body.End()
	}
	basic := func(e ast.Expr, info types.BasicInfo) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		if !ok {
			return false
		}
		o := in.info.Uses[id]
		if o == nil {
			return false
		}
		if v, ok := o.(*types.Var); !ok || v.IsField() || v.Parent() == in.p.Pkg.Types.Scope() {
			return false
		}
		b, ok := o.Type().Underlying().(*types.Basic)
		return ok && b.Info()&info != 0
	}
	// a counter: i++, i += c, i = i + c
	counts := func(x *ast.AssignStmt) bool {
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !basic(x.Lhs[0], types.IsInteger) {
			return false
		}
		if x.Tok == token.ADD_ASSIGN || x.Tok == token.SUB_ASSIGN {
			return in.info.Types[x.Rhs[0]].Value != nil
		}
		b, ok := ast.Unparen(x.Rhs[0]).(*ast.BinaryExpr)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return false
		}
		same := func(e ast.Expr) bool {
			id, ok := ast.Unparen(e).(*ast.Ident)
			l := ast.Unparen(x.Lhs[0]).(*ast.Ident)
			return ok && in.info.Uses[id] == in.info.Uses[l]
		}
		return same(b.X) && in.info.Types[b.Y].Value != nil || b.Op == token.ADD && same(b.Y) && in.info.Types[b.X].Value != nil
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if counts(x) {
				return true
			}
			for _, l := range x.Lhs {
				if !local(l) && basic(l, types.IsBoolean) {
					leaves = true
					continue
				}
				good = good && local(l)
			}
		case *ast.IncDecStmt:
			good = good && (local(x.X) || basic(x.X, types.IsInteger))
		case *ast.ExprStmt:
			// a call for its effects
			if c, ok := x.X.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "panic" {
					good = false
				}
			}
		case *ast.ReturnStmt:
			leaves = true
		case *ast.FuncLit, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
			good = false
		}
		return good
	})
	return good && leaves
}

// fromSame: what is stored was read from the same array (a row moves within its matrix).
func (in *Interp) fromSame(body *ast.BlockStmt, dst *ast.IndexExpr, e ast.Expr) bool {
	base := func(x ast.Expr) types.Object {
		if ix, ok := ast.Unparen(x).(*ast.IndexExpr); ok {
			if id, ok := ast.Unparen(ix.X).(*ast.Ident); ok {
				return in.info.Uses[id]
			}
		}
		return nil
	}
	want := base(dst)
	if want == nil {
		return false
	}
	if base(e) == want {
		return true
	}
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || in.info.Uses[id] == nil {
		return false
	}
	n, good := 0, true
	ast.Inspect(body, func(m ast.Node) bool {
		a, ok := m.(*ast.AssignStmt)
		if !ok {
			return true
		}
		for i, l := range a.Lhs {
			li, ok := l.(*ast.Ident)
			if !ok || in.info.Defs[li] != in.info.Uses[id] && in.info.Uses[li] != in.info.Uses[id] {
				continue
			}
			n++
			if len(a.Rhs) != len(a.Lhs) || base(a.Rhs[i]) != want {
				good = false
			}
		}
		return true
	})
	return good && n > 0
}

func (in *Interp) wild(name string, s Sort) *Term {
	return App("wild", s, append([]*Term{Sym(name, SAny)}, in.loopSyms()...)...)
}

// shifts: the pass moves one entry to a neighbouring place, which may be a part of a longer move.
func shifts(c *Content) bool {
	if c == nil || len(c.regs) != 1 {
		return false
	}
	v, ok := c.regs[0].val.(*Term)
	if !ok || c.regs[0].idx == nil {
		return true
	}
	if v.op != OApp || v.name != "pver" && v.name != "ver" {
		return true
	}
	_, near := constantT(Sub(v.args[len(v.args)-1], c.regs[0].idx))
	return near
}

func (in *Interp) coarseLoop(key string, rangeN *Term, condE ast.Expr, pre func(k *Term), body *ast.BlockStmt, post ast.Stmt) {
	base := in.st
	fr := in.fr
	k := Sym("k@"+key, SInt)
	tm.nonneg[k] = true
	leaves := map[string]bool{}
	objs := map[*VObj]bool{}
	gens := map[*VObj]*SliceV{}
	effMark, retMark, ncells := len(in.effects), len(fr.rets), len(fr.plain)
	// counters that every iteration moves by the same amount keep their closed form
	step := map[string]float64{}
	noStep := map[string]bool{}
	// limits kept at every exit, and limits kept from one iteration to the next
	ranges, kept := map[string]*bounds{}, map[string]*bounds{}
	var headOf = map[string]*Term{}
	limits := in.limitsOf(condE)
	// arrays that stay permutations, and the flags that follow their parity
	type flagOf struct {
		o   *VObj
		neg bool
	}
	perms := map[*VObj]*Term{}
	var ords map[*VObj]*orderInfo
	var pairs map[*VObj]*pairInfo
	permNos := map[*VObj]bool{}
	entryNo := map[*VObj]bool{}
	flags := map[string]*flagOf{}
	noFlag, offFlag := map[string]bool{}, map[string]bool{}
	verOf := func(tag string, o *VObj) []*Term {
		va := append([]*Term{Sym(tag+"@"+key+"@"+o.key, SAny)}, in.loopSyms()...)
		if tag == "head" {
			va = append(va, k)
		}
		return va
	}
	flagFor := func(path string, at *Term) *flagOf {
		if noFlag[path] {
			return nil
		}
		if g := flags[path]; g != nil {
			if perms[g.o] != nil {
				return g
			}
			delete(flags, path)
			noFlag[path] = true
			return nil
		}
		for _, o := range sortedTerms(perms) {
			st, start, deltas := in.permOf(base.facts, base.mem[o], o, perms[o])
			for _, neg := range []bool{false, true} {
				if st == permYes && in.parityIs(base.facts, at, start, deltas, neg) {
					flags[path] = &flagOf{o, neg}
					return flags[path]
				}
			}
		}
		noFlag[path] = true
		return nil
	}
	havocked := func(tag string, st *State) {
		for c, v := range base.vars {
			st.vars[c] = mapLeaves(c.key, v, func(path string, a Value) Value {
				if !leaves[path] {
					return nil
				}
				if t, ok := a.(*Term); ok {
					if t.sort == SBool && len(perms) > 0 {
						if g := flagFor(path, t); g != nil {
							w := App("parity", SBool, append(verOf(tag, g.o), perms[g.o])...)
							if g.neg {
								w = Not(w)
							}
							return w
						}
					}
					if offFlag[path] && tag == "left" {
						return App("off", SBool, append([]*Term{Sym(tag+"@"+key+"@"+path, SAny)}, in.loopSyms()...)...)
					}
					if t.sort == SInt && in.runs > 0 && ranges[path] == nil {
						ranges[path] = in.boundsOf(base.facts, t, rangeN, limits)
						kept[path] = &bounds{append([]*Term{}, ranges[path].lo...), append([]*Term{}, ranges[path].hi...)}
					}
					if tag == "head" {
						w := in.wild(tag+"@"+key+"@"+path, t.sort)
						if g := step[path]; g != 0 {
							w = Add(t, Scale(k, g))
						}
						headOf[path] = w
						return w
					}
					if ranges[path] != nil {
						return ranges[path].wild(in, tag+"@"+key+"@"+path)
					}
					return in.wild(tag+"@"+key+"@"+path, t.sort)
				}
				if ok := in.numericStruct(a); ok != nil {
					return ok(func(s Sort, i int) *Term { return in.wild(fmt.Sprintf("%s@%s@%s.%d", tag, key, path, i), s) })
				}
				return UnkV{"changed by a loop"}
			})
		}
		for o := range objs {
			_, ok := sortOf(o.typ)
			if ok || gens[o] != nil {
				va := in.loopSyms()
				if tag == "head" {
					va = append(va, k)
				}
				st.mem[o] = &Content{ver: tag + "@" + key + "@" + o.key, vargs: va, gen: gens[o], perm: perms[o], permNo: permNos[o], lvl: len(in.loops)}
			} else {
				st.mem[o] = &Content{havoc: true, lvl: len(in.loops)}
			}
		}
	}
	var endSt, headSt *State
	var rawCond *Term
	var ctx *brkCtx
	var rets []exitS
	for pass := 0; ; pass++ {
		in.tick()
		if pass > 40 {
			panic(analysisErr{key + ": coarse loop does not stabilise"})
		}
		in.effects = in.effects[:effMark]
		fr.rets = fr.rets[:retMark]
		fr.plain = fr.plain[:ncells]
		in.st = base.clone()
		headOf = map[string]*Term{}
		havocked("head", in.st)
		head := in.st.clone()
		var inv []*Term
		for path, h := range headOf {
			if b := kept[path]; b != nil {
				inv = append(inv, b.facts(h)...)
			}
		}
		sort.Slice(inv, func(i, j int) bool { return inv[i].id < inv[j].id })
		lr := &loopRun{key: key, bound: map[*VObj]int{}, havoc: map[*VObj]bool{}}
		for o, c := range in.st.mem {
			lr.bound[o] = len(c.regs)
		}
		in.loops = append(in.loops, lr)
		ctx = &brkCtx{loop: true}
		fr.brk = append(fr.brk, ctx)
		in.st.facts = base.facts.with(Ge0(k)).with(inv...)
		if rangeN != nil {
			in.st.facts = in.st.facts.with(Lt(k, rangeN))
		}
		if condE != nil {
			rawCond = in.simpT(in.st.facts, in.cond(condE))
			c := Decide(in.st.facts, rawCond)
			in.st.facts = in.st.facts.with(conjuncts(c)...)
		}
		headSt = head
		bodyBase := in.st.clone()
		if pre != nil && !in.st.dead() {
			pre(k)
		}
		if !in.st.dead() {
			in.block(body.List)
		}
		for _, c := range ctx.conts {
			in.st = in.joinExits(bodyBase, c, in.st)
		}
		if post != nil && !in.st.dead() {
			in.stmt(post)
		}
		endSt = in.st
		fr.brk = fr.brk[:len(fr.brk)-1]
		in.loops = in.loops[:len(in.loops)-1]
		rets = append([]exitS{}, fr.rets[retMark:]...)
		again := false
		check := func(s *State, whole bool) {
			if s.dead() {
				return
			}
			for c, h := range head.vars {
				e, ok := s.vars[c]
				if !ok || sameV(h, e) && (!whole || len(step) == 0) {
					continue
				}
				walkLeaves(c.key, h, e, func(path string, a, b Value) {
					if t, ok := b.(*Term); ok && ranges[path] != nil && headOf[path] != nil && !sameV(a, b) {
						if whole && kept[path].drop(s.facts, t) {
							again = true
						}
						if ranges[path].drop(s.facts, t) {
							again = true
						}
					}
				})
				walkLeaves(c.key, h, e, func(path string, a, b Value) {
					if sameV(a, b) && (!whole || step[path] == 0) {
						return
					}
					if !leaves[path] {
						leaves[path] = true
						again = true
						if g, ok := stepOf(a, b); ok && whole && !noStep[path] {
							step[path] = g
						}
						return
					}
					if g, ok := stepOf(a, b); whole && step[path] != 0 && (!ok || g != step[path]) {
						delete(step, path)
						noStep[path] = true
						again = true
					}
				})
			}
			for _, o := range sortedTerms(perms) {
				st, start, deltas := in.permOf(s.facts, s.mem[o], o, perms[o])
				if st != permYes {
					permNos[o] = st == permNo && !shifts(s.mem[o])
					delete(perms, o)
					again = true
					continue
				}
				for path, g := range flags {
					if g.o != o {
						continue
					}
					for c, h := range head.vars {
						e, ok := s.vars[c]
						if !ok {
							continue
						}
						walkLeaves(c.key, h, e, func(at string, a, b Value) {
							bt, ok := b.(*Term)
							if at != path || ok && in.parityIs(s.facts, bt, start, deltas, g.neg) {
								return
							}
							noFlag[path] = true
							again = true
							if in.wantPerm && ok && toggles(a, bt) {
								offFlag[path] = in.parityOff(s.facts, bt, start, deltas, g.neg)
							}
						})
					}
				}
				for path := range noFlag {
					delete(flags, path)
				}
			}
			for o, c := range s.mem {
				if objs[o] {
					if gens[o] != nil && in.rowsOf(nil, c) == nil {
						gens[o] = nil
						again = true
					}
					continue
				}
				hc := head.mem[o]
				if hc == c || hc == nil && len(c.regs) == 0 && !c.havoc && c.ver == "" {
					continue
				}
				if in.bornIn(o, key) {
					continue
				}
				if _, ok := sortOf(o.typ); !ok {
					gens[o] = in.rowsOf(base.mem[o], c)
				}
				objs[o] = true
				again = true
				if sort, ok := sortOf(o.typ); ok && sort == SInt {
					if in.trace {
						fmt.Println("  integer array", key, o.key, lengthOf(base, o), len(base.mem[o].regs), c.ver, len(c.regs))
					}
					if n := lengthOf(base, o); n != nil {
						st, _, _ := in.permOf(base.facts, base.mem[o], o, n)
						if st == permYes {
							perms[o] = n
						}
						permNos[o], entryNo[o] = st == permNo, st == permNo
					}
				}
			}
			// no permutation at the start stays none only when a pass does no more than exchange entries
			for _, o := range sortedObjs(entryNo) {
				if hc := head.mem[o]; !entryNo[o] || !permNos[o] || hc == nil || !hc.permNo || hc == s.mem[o] {
					continue
				}
				if st, start, _ := in.permOf(s.facts, s.mem[o], o, lengthOf(base, o)); st != permNo || start != tFalse {
					permNos[o] = false
					again = true
				}
			}
		}
		check(endSt, true)
		for _, b := range ctx.brks {
			check(b, false)
		}
		for _, r := range rets {
			check(r.st, false)
		}
		if !again {
			break
		}
	}
	n := rangeN
	if n == nil {
		n = in.wild("trips@"+key, SInt)
	}
	// effects: under arbitrary conditions
	for i := effMark; i < len(in.effects); i++ {
		ne := *in.effects[i]
		ne.bs = append([]binder{{k, n}}, ne.bs...)
		in.effects[i] = &ne
	}
	if in.order {
		var counters []*Term
		for path, g := range step {
			if g == 1 && headOf[path] != nil {
				counters = append(counters, headOf[path])
			}
		}
		sort.Slice(counters, func(i, j int) bool { return counters[i].id < counters[j].id })
		if rangeN != nil {
			counters = append(counters, k)
		}
		open := false
		for _, r := range rets {
			open = open || !r.st.dead()
		}
		ords, pairs = in.orders(key, k, base, headSt, endSt, counters, rawCond, rangeN, objs, ctx.brks, open)
	}
	var sols map[*VObj]*solveInfo
	if in.solving {
		in.solveKeys[key] = true
		counters := map[*Term]float64{}
		for path, g := range step {
			if (g == 1 || g == -1) && headOf[path] != nil {
				counters[headOf[path]] = g
			}
		}
		if rangeN != nil {
			counters[k] = 1
		}
		open := false
		for _, r := range rets {
			open = open || !r.st.dead()
		}
		for _, b := range ctx.brks {
			open = open || !b.dead()
		}
		if !open {
			sols = in.solves(key, k, base, headSt, endSt, counters, rawCond, rangeN, objs)
		}
	}
	after := base.clone()
	havocked("left", after)
	for o := range objs {
		if c := after.mem[o]; c != nil && c.ver != "" {
			in.permFresh++
			in.verSeq[c.ver] = in.permFresh
			delete(in.ordVers, c.ver)
			delete(in.pairVers, c.ver)
			delete(in.solved, c.ver)
			if in.solving {
				in.solveVers[c.ver] = true
			}
			if sols[o] != nil {
				in.solved[c.ver] = sols[o]
			}
			if ords[o] != nil {
				in.ordVers[c.ver] = ords[o]
				if ords[o].st == ordYes {
					c.ord = ords[o].n
				}
			}
			if pairs[o] != nil {
				in.pairVers[c.ver] = pairs[o]
			}
		}
	}
	live := base.live
	facts := base.facts
	var newRets []exitS
	for i, r := range rets {
		if r.st.dead() {
			continue
		}
		w := in.wild(fmt.Sprintf("returns%d@%s", i, key), SBool)
		rs := base.clone()
		for c, v := range r.st.vars {
			rs.vars[c] = v
		}
		for o := range objs {
			rs.mem[o] = after.mem[o]
		}
		rs.live = And(live, w)
		rs.facts = facts.with(w)
		newRets = append(newRets, exitS{rs, r.vals})
		live = And(live, Not(w))
		facts = facts.with(Not(w))
	}
	fr.rets = append(fr.rets[:retMark], newRets...)
	after.live = live
	for c, v := range after.vars {
		walkLeaves(c.key, v, v, func(path string, a, _ Value) {
			if t, ok := a.(*Term); ok && ranges[path] != nil && leaves[path] {
				facts = facts.with(ranges[path].facts(t)...)
			}
		})
	}
	after.facts = facts
	if condE == nil && rangeN == nil {
		alive := false
		for _, b := range ctx.brks {
			if !b.dead() {
				alive = true
			}
		}
		if !alive {
			after.live = tFalse
		}
	}
	in.st = after
}

// bounds are the limits an integer that a loop changes stays within: candidates, dropped as soon
// as an iteration is not shown to keep them.
type bounds struct{ lo, hi []*Term }

func (in *Interp) boundsOf(f *Facts, at, n *Term, limits []*Term) *bounds {
	b := &bounds{}
	los := []*Term{at, Int(0), Int(-1)}
	for _, e := range limits {
		los = append(los, Sub(at, e), AddC(Sub(at, e), -1))
	}
	for _, c := range los {
		if Prove(f, Ge0(Sub(at, c))) {
			b.lo = append(b.lo, c)
		}
	}
	his := []*Term{at}
	for _, e := range limits {
		his = append(his, Add(at, e), AddC(Add(at, e), 1))
	}
	if n != nil {
		his = append(his, AddC(n, -1))
	}
	seen := map[*Term]bool{}
	for g := f; g != nil; g = g.up {
		if g.t == nil {
			continue
		}
		for s := range g.t.syms {
			if s.sort == SInt && s.op == OSym && strings.HasPrefix(s.name, "in:") && !seen[s] {
				seen[s] = true
			}
		}
	}
	var ss []*Term
	for s := range seen {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].id < ss[j].id })
	for _, s := range ss {
		his = append(his, AddC(s, -1))
	}
	his = append(his, ss...)
	for _, c := range his {
		if Prove(f, Ge0(Sub(c, at))) {
			b.hi = append(b.hi, c)
		}
	}
	return b
}

// limitsOf: how far the condition of a loop lets its variables go, on entry.
func (in *Interp) limitsOf(condE ast.Expr) (es []*Term) {
	if condE == nil || in.runs == 0 {
		return nil
	}
	st, marks, runs := in.st, len(in.effects), in.proven
	in.st = st.clone()
	c := in.cond(condE)
	in.st, in.effects, in.proven = st, in.effects[:marks], runs
	var rec func(c *Term)
	rec = func(c *Term) {
		if c.op == OGe0 && c.args[0].sort == SInt && !c.unk && len(es) < 3 {
			es = append(es, c.args[0])
			return
		}
		if c.op == OAnd {
			for _, a := range c.args {
				rec(a)
			}
		}
	}
	rec(c)
	return
}

func (b *bounds) facts(x *Term) (fs []*Term) {
	for _, c := range b.lo {
		fs = append(fs, Ge0(Sub(x, c)))
	}
	for _, c := range b.hi {
		fs = append(fs, Ge0(Sub(c, x)))
	}
	return
}

// drop removes the bounds a value is not known to keep.
func (b *bounds) drop(f *Facts, x *Term) bool {
	n := len(b.lo) + len(b.hi)
	keep := func(cs []*Term, sign float64) (r []*Term) {
		for _, c := range cs {
			if !x.unk && Prove(f, Ge0(Scale(Sub(x, c), sign))) {
				r = append(r, c)
			}
		}
		return
	}
	b.lo = keep(b.lo, 1)
	b.hi = keep(b.hi, -1)
	return len(b.lo)+len(b.hi) < n
}

// wild is the integer a loop leaves behind, within its bounds.
func (b *bounds) wild(in *Interp, name string) *Term {
	args := []*Term{Sym(name, SAny)}
	switch {
	case len(b.lo) > 0 && len(b.hi) > 0:
		return App("wildr", SInt, append(append(args, b.lo[0], b.hi[0]), in.loopSyms()...)...)
	case len(b.lo) > 0:
		return App("wildlo", SInt, append(append(args, b.lo[0]), in.loopSyms()...)...)
	}
	return in.wild(name, SInt)
}

// stepOf: b is a by a constant amount further.
func stepOf(a, b Value) (float64, bool) {
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 || x.sort != SInt || y.sort != SInt {
		return 0, false
	}
	g, ok := constantT(Sub(y, x))
	return g, ok && g != 0
}

// bornIn: an object made by the loop's own body is gone after the iteration.
func (in *Interp) bornIn(o *VObj, key string) bool {
	for _, k := range o.born {
		if k == key {
			return true
		}
	}
	return false
}

// rowsOf: every element stored in the array is a row of one family, all of the same length.
func (in *Interp) rowsOf(cs ...*Content) *SliceV {
	var g *SliceV
	ok := true
	var val func(v Value)
	val = func(v Value) {
		switch x := v.(type) {
		case SliceV:
			if x.off != Int(0) {
				ok = false
				return
			}
			if g == nil {
				y := x
				y.isn = tFalse
				g = &y
				return
			}
			if g.obj != x.obj || len(g.oidx) != len(x.oidx) || g.len != x.len {
				ok = false
			}
			if g.cap != x.cap {
				g.cap = g.len
			}
		case CondV:
			val(x.a)
			val(x.b)
		default:
			ok = false
		}
	}
	for _, c := range cs {
		if c == nil {
			continue
		}
		if c.havoc || c.ver != "" && c.gen == nil {
			return nil
		}
		if c.gen != nil {
			val(*c.gen)
		}
		for _, r := range c.regs {
			for _, b := range r.bs {
				valTerms(r.val, func(t *Term) {})
				if sv, is := r.val.(SliceV); is && sv.len.syms[b.v] {
					ok = false
				}
			}
			val(r.val)
		}
	}
	if !ok {
		return nil
	}
	return g
}

func (in *Interp) numericStruct(v Value) func(func(Sort, int) *Term) Value {
	s, ok := v.(StructV)
	if !ok {
		return nil
	}
	for _, f := range s.f {
		if _, ok := f.(*Term); !ok {
			return nil
		}
	}
	return func(mk func(Sort, int) *Term) Value {
		n := StructV{s.typ, make([]Value, len(s.f))}
		for i, f := range s.f {
			n.f[i] = mk(f.(*Term).sort, i)
		}
		return n
	}
}

func sortedObjs(m map[*VObj]bool) []*VObj {
	var out []*VObj
	for o := range m {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

func sortedTerms(m map[*VObj]*Term) []*VObj {
	b := map[*VObj]bool{}
	for o := range m {
		b[o] = true
	}
	return sortedObjs(b)
}

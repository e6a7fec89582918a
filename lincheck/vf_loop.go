package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
)

// Loop summarisation. A loop is never unrolled: the analysis introduces an iteration symbol k,
// finds for every loop-carried scalar a closed form in k (induction variable, accumulated sum,
// previous iteration, or a simultaneous recurrence), a symbolic iteration count, and turns the
// writes of one iteration into writes quantified over k. Array contents that an iteration reads
// from an earlier one are recognised as accumulations, or given up.

type leafKind int

const (
	lkSame  leafKind = iota
	lkProbe          // head value is a symbol, classification pending
	lkInc            // init + sum of g over earlier iterations
	lkPrev           // value computed by the previous iteration
	lkFold           // general recurrence
	lkUnk
)

type leafInfo struct {
	kind  leafKind
	g     *Term // lkInc: increment; lkPrev: value at the end of the iteration
	gv    Value // lkPrev of a non numeric leaf
	phi   *Term
	tries int
	// filled in every pass
	init Value
	end  Value
}

type objMode int

const (
	omFree objMode = iota
	omVer
	omHavoc
)

type loopInfo struct {
	leaf map[string]*leafInfo
	mode map[*VObj]objMode
}

func (in *Interp) forStmt(x *ast.ForStmt) {
	if x.Init != nil {
		in.stmt(x.Init)
		if in.st.dead() {
			return
		}
	}
	cond, body := leadingBreak(x)
	in.loop(x, nil, cond, nil, body, x.Post)
}

// leadingBreak reads for { if c { break }; ... } as for !c { ... }.
func leadingBreak(x *ast.ForStmt) (ast.Expr, *ast.BlockStmt) {
	if x.Cond != nil || len(x.Body.List) == 0 {
		return x.Cond, x.Body
	}
	s, ok := x.Body.List[0].(*ast.IfStmt)
	if !ok || s.Init != nil || len(s.Body.List) != 1 {
		return x.Cond, x.Body
	}
	b, ok := s.Body.List[0].(*ast.BranchStmt)
	if !ok || b.Tok != token.BREAK || b.Label != nil {
		return x.Cond, x.Body
	}
	rest := x.Body.List[1:]
	if s.Else != nil {
		rest = append([]ast.Stmt{s.Else}, rest...)
	}
	return &ast.UnaryExpr{OpPos: s.Cond.Pos(), Op: token.NOT, X: s.Cond},
		&ast.BlockStmt{Lbrace: x.Body.Lbrace, List: rest, Rbrace: x.Body.Rbrace}
}

func (in *Interp) rangeStmt(x *ast.RangeStmt) {
	v := in.expr(x.X)
	if in.st.dead() {
		return
	}
	in.rangeOver(x, v)
}

func (in *Interp) rangeOver(x *ast.RangeStmt, v Value) {
	var n *Term
	var s SliceV
	isSlice := false
	switch y := v.(type) {
	case SliceV:
		n, s, isSlice = y.len, y, true
	case *Term:
		if y.sort == SInt {
			n = y
		}
	case CondV:
		in.splitV(y, func(w Value) Value { in.rangeOver(x, w); return nil })
		return
	}
	if n == nil {
		n = Unk(SInt, "range over an unknown value")
	}
	var vt types.Type
	if st, ok := in.typeOf(x.X).Underlying().(*types.Slice); ok {
		vt = st.Elem()
	}
	in.loop(x, n, nil, func(k *Term) {
		set := func(e ast.Expr, v Value) {
			id, ok := e.(*ast.Ident)
			if ok && id.Name == "_" {
				return
			}
			if ok && x.Tok == token.DEFINE {
				in.define(id, v)
				return
			}
			pl, _ := in.place(e)
			in.store(pl, v, e.Pos())
		}
		if x.Key != nil {
			set(x.Key, k)
		}
		if x.Value != nil {
			if id, ok := x.Value.(*ast.Ident); ok && id.Name == "_" {
				return
			}
			if isSlice {
				set(x.Value, in.readMem(s.obj, s.oidx, Add(s.off, k)))
			} else if vt != nil {
				set(x.Value, in.unkOf(vt, "range value"))
			} else {
				set(x.Value, UnkV{"range value"})
			}
		}
	}, x.Body, nil)
}

// walkLeaves visits the scalar leaves of two values of the same shape. Leaves that are not
// numeric are visited whole.
func walkLeaves(path string, a, b Value, f func(path string, a, b Value)) {
	switch x := a.(type) {
	case StructV:
		if y, ok := b.(StructV); ok && len(x.f) == len(y.f) {
			for i := range x.f {
				walkLeaves(fmt.Sprintf("%s.%d", path, i), x.f[i], y.f[i], f)
			}
			return
		}
	case SliceV:
		if y, ok := b.(SliceV); ok && x.obj == y.obj && len(x.oidx) == len(y.oidx) {
			for i := range x.oidx {
				f(fmt.Sprintf("%s#o%d", path, i), x.oidx[i], y.oidx[i])
			}
			f(path+"#off", x.off, y.off)
			f(path+"#len", x.len, y.len)
			f(path+"#cap", x.cap, y.cap)
			f(path+"#isn", x.isn, y.isn)
			return
		}
	}
	f(path, a, b)
}

// mapLeaves rebuilds a value with its leaves replaced; nil keeps a leaf.
func mapLeaves(path string, a Value, f func(path string, a Value) Value) Value {
	if r := f(path, a); r != nil {
		return r
	}
	t := func(p string, x *Term) *Term {
		if r, ok := f(p, x).(*Term); ok && r != nil {
			return r
		}
		return x
	}
	switch x := a.(type) {
	case StructV:
		n := StructV{x.typ, make([]Value, len(x.f))}
		for i := range x.f {
			n.f[i] = mapLeaves(fmt.Sprintf("%s.%d", path, i), x.f[i], f)
		}
		return n
	case SliceV:
		oi := make([]*Term, len(x.oidx))
		for i := range oi {
			oi[i] = t(fmt.Sprintf("%s#o%d", path, i), x.oidx[i])
		}
		x.oidx = oi
		x.off, x.len, x.cap, x.isn = t(path+"#off", x.off), t(path+"#len", x.len), t(path+"#cap", x.cap), t(path+"#isn", x.isn)
		return x
	}
	return a
}

// assignedIn lists the plain variables a statement assigns.
func assignedIn(n ast.Node, f func(id *ast.Ident)) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok {
						f(id)
					}
				}
			} else {
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok {
						f(id)
					}
				}
			}
		case *ast.IncDecStmt:
			if id, ok := x.X.(*ast.Ident); ok {
				f(id)
			}
		}
		return true
	})
}

// loop analyses a loop. When an earlier attempt could not resolve a store inside it, the first
// iteration is analysed separately: a structure set up lazily by it is known to the others.
func (in *Interp) loop(node ast.Node, rangeN *Term, condE ast.Expr, pre func(k *Term), body *ast.BlockStmt, post ast.Stmt) {
	key := in.key() + "|" + in.sitePos(node)
	before := in.tainted
	if in.coarse > 0 && !(in.order && in.leafLoop(body)) && !in.buildsStructure(body) && !in.onlyLooks(body) && !in.onlyInts(body) {
		if in.solving && !in.rough[key] && in.plainLoop(node, key, rangeN, condE, pre, body, post) {
			return
		}
		in.coarseLoop(key, rangeN, condE, pre, body, post)
		return
	}
	if in.peel[key] {
		c := tTrue
		if condE != nil {
			c = in.simpT(in.st.facts, in.cond(condE))
		} else if rangeN != nil {
			c = Ge0(AddC(rangeN, -1))
		}
		if in.st.dead() {
			return
		}
		in.branch(c, func() {
			base := in.st.clone()
			fr := in.fr
			ctx := &brkCtx{loop: true}
			fr.brk = append(fr.brk, ctx)
			in.keys = append(in.keys, "first")
			if pre != nil {
				pre(Int(0))
			}
			if !in.st.dead() {
				in.block(body.List)
			}
			in.keys = in.keys[:len(in.keys)-1]
			fr.brk = fr.brk[:len(fr.brk)-1]
			for _, c := range ctx.conts {
				in.st = in.joinExits(base, c, in.st)
			}
			if post != nil && !in.st.dead() {
				in.stmt(post)
			}
			if !in.st.dead() {
				rest := pre
				if pre != nil {
					rest = func(k *Term) { pre(AddC(k, 1)) }
				}
				n := rangeN
				if n != nil {
					n = AddC(n, -1)
				}
				in.loopRest(node, key, n, condE, rest, body, post)
			}
			for _, b := range ctx.brks {
				in.st = in.joinExits(base, b, in.st)
			}
		}, func() {})
	} else {
		in.loopRest(node, key, rangeN, condE, pre, body, post)
	}
	if in.tainted != before && len(in.loops) == 0 && len(in.peel) < 3 {
		for _, l := range in.taintLoops {
			if !in.peel[l] {
				in.peel[l] = true
				panic(restartErr{})
			}
		}
	}
}

// plainLoop analyses a loop as one that updates arrays entry by entry; a loop that is not is
// undone.
func (in *Interp) plainLoop(node ast.Node, key string, rangeN *Term, condE ast.Expr, pre func(k *Term), body *ast.BlockStmt, post ast.Stmt) (plain bool) {
	st, fr := in.st.clone(), in.fr
	effMark, retMark, ncells, taint := len(in.effects), len(fr.rets), len(fr.plain), in.tainted
	readMark := make([]int, len(in.loops))
	for i, l := range in.loops {
		readMark[i] = len(l.reads)
	}
	in.loopRest(node, key, rangeN, condE, pre, body, post)
	for o, m := range in.linfo[key].mode {
		if _, ok := sortOf(o.typ); ok && m == omHavoc {
			in.rough[key] = true
		}
	}
	for _, l := range in.linfo[key].leaf {
		if l.kind == lkUnk {
			in.rough[key] = true
		}
	}
	for o, c := range in.st.mem {
		if was := st.mem[o]; was != nil && was != c {
			if s, ok := sortOf(o.typ); !ok || s != SFloat {
				continue
			}
			if c.havoc && !was.havoc {
				in.rough[key] = true
			}
			for i := len(was.regs); i < len(c.regs); i++ {
				if t, ok := c.regs[i].val.(*Term); !ok || t.unk {
					in.rough[key] = true
				}
			}
		}
	}
	if !in.rough[key] {
		return true
	}
	in.st, in.tainted = st, taint
	in.effects, fr.rets, fr.plain = in.effects[:effMark], fr.rets[:retMark], fr.plain[:ncells]
	for i, l := range in.loops {
		l.reads = l.reads[:readMark[i]]
	}
	return false
}

func (in *Interp) loopRest(node ast.Node, key string, rangeN *Term, condE ast.Expr, pre func(k *Term), body *ast.BlockStmt, post ast.Stmt) {
	taintMark := in.tainted
	k := Sym("k@"+key, SInt)
	tm.nonneg[k] = true
	base := in.st
	fr := in.fr
	info := in.linfo[key]
	if info == nil {
		info = &loopInfo{leaf: map[string]*leafInfo{}, mode: map[*VObj]objMode{}}
		in.linfo[key] = info
		// presets: plain variables the body assigns are probed at once, counters of the post
		// statement are increments
		assignedIn(body, func(id *ast.Ident) {
			if o := in.info.Uses[id]; o != nil {
				if c := in.lookup(o); c != nil {
					if _, had := base.vars[c]; had {
						if _, num := sortOf(c.typ); num {
							info.leaf[c.key] = &leafInfo{kind: lkProbe}
						}
					}
				}
			}
		})
		if post != nil {
			assignedIn(post, func(id *ast.Ident) {
				if o := in.info.Uses[id]; o != nil {
					if c := in.lookup(o); c != nil {
						if _, had := base.vars[c]; had && info.leaf[c.key] == nil {
							if ids, ok := post.(*ast.IncDecStmt); ok && c.typ != nil {
								if s, ok := sortOf(c.typ); ok && s == SInt {
									g := Int(1)
									if ids.Tok == token.DEC {
										g = Int(-1)
									}
									info.leaf[c.key] = &leafInfo{kind: lkInc, g: g}
									return
								}
							}
							if _, num := sortOf(c.typ); num {
								info.leaf[c.key] = &leafInfo{kind: lkProbe}
							}
						}
					}
				}
			})
		}
	} else {
		for _, l := range info.leaf {
			l.tries = 0
		}
	}
	effMark, retMark := len(in.effects), len(fr.rets)
	readMark := make([]int, len(in.loops))
	for i, l := range in.loops {
		readMark[i] = len(l.reads)
	}
	outerLvl := len(in.loops)
	ncells := len(fr.plain)

	// closed forms as of iteration k
	sumTo := func(g, n *Term) *Term {
		t := FreshSym("t", SInt)
		tm.nonneg[t] = true
		return Sum(t, n, subst1(g, k, t))
	}
	closed := func(l *leafInfo, at *Term) Value {
		switch l.kind {
		case lkInc:
			return Add(l.init.(*Term), sumTo(l.g, at))
		case lkPrev:
			if l.gv != nil {
				return mkCond(Ge0(AddC(at, -1)), substV(l.gv, map[*Term]*Term{k: AddC(at, -1)}), l.init)
			}
			return Ite(Ge0(AddC(at, -1)), subst1(l.g, k, AddC(at, -1)), l.init.(*Term))
		}
		return nil
	}
	phiOf := func(path string, l *leafInfo, s Sort) *Term {
		if l.phi == nil || l.phi.sort != s {
			l.phi = Sym("φ@"+key+"@"+path, s)
		}
		return l.phi
	}

	var lr *loopRun
	var bodyBase, endSt *State
	var headVars map[*Cell]Value
	var N *Term
	var ctx *brkCtx
	var rets []exitS
	condEff := 0
	live := map[string]*leafInfo{} // leaves that exist in this pass
	probedNow := map[string]bool{}

	pass := 0
	for ; ; pass++ {
		in.tick()
		if pass > 9 {
			for _, l := range info.leaf {
				if l.kind == lkProbe {
					l.kind = lkUnk
				}
			}
			if pass > 14 {
				panic(analysisErr{in.p.posn(node.Pos()) + ": loop analysis does not stabilise"})
			}
		}
		// undo the previous pass
		in.tainted = taintMark
		in.effects = in.effects[:effMark]
		fr.rets = fr.rets[:retMark]
		fr.plain = fr.plain[:ncells]
		for i, l := range in.loops {
			l.reads = l.reads[:readMark[i]]
		}
		in.st = base.clone()
		live = map[string]*leafInfo{}
		for c, v := range base.vars {
			in.st.vars[c] = mapLeaves(c.key, v, func(path string, a Value) Value {
				l := info.leaf[path]
				if l == nil || l.kind == lkSame {
					return nil
				}
				l.init = a
				live[path] = l
				t, num := a.(*Term)
				switch l.kind {
				case lkProbe, lkFold:
					if num {
						return phiOf(path, l, t.sort)
					}
					return UnkV{"loop-carried value"}
				case lkInc:
					if num && t.sort == l.g.sort {
						r := closed(l, k)
						if t.sort == SFloat {
							return phiOf(path, l, t.sort)
						}
						return r
					}
					l.kind = lkProbe
					if num {
						return phiOf(path, l, t.sort)
					}
					return UnkV{"loop-carried value"}
				case lkPrev:
					if (l.gv != nil) != num || num && l.g != nil && l.g.sort == t.sort {
						return closed(l, k)
					}
					l.kind = lkUnk
				}
				if num {
					return Unk(t.sort, "loop-carried value")
				}
				return UnkV{"loop-carried value"}
			})
		}
		headVars = make(map[*Cell]Value, len(in.st.vars))
		for c, v := range in.st.vars {
			headVars[c] = v
		}
		lr = &loopRun{key: key, bound: map[*VObj]int{}, havoc: map[*VObj]bool{}}
		for o, c := range in.st.mem {
			lr.bound[o] = len(c.regs)
		}
		for o, m := range info.mode {
			switch m {
			case omVer:
				in.st.mem[o] = &Content{ver: "v@" + key + "@" + o.key, lvl: outerLvl}
				lr.bound[o] = 0
			case omHavoc:
				in.st.mem[o] = &Content{havoc: true}
				if in.coarse > 0 {
					if _, ok := sortOf(o.typ); ok {
						in.st.mem[o] = &Content{ver: "head@" + key + "@" + o.key, vargs: append(in.loopSyms(), k), lvl: outerLvl}
					}
				}
				lr.bound[o] = 0
			}
		}
		for o, c := range in.st.mem {
			lr.havoc[o] = c.havoc
		}
		in.loops = append(in.loops, lr)
		ctx = &brkCtx{loop: true}
		fr.brk = append(fr.brk, ctx)
		in.st.facts = base.facts.with(Ge0(k))
		N = rangeN
		var cond *Term = tTrue
		if condE != nil {
			cond = in.simpT(in.st.facts, in.cond(condE))
			cond = Decide(in.st.facts, cond)
			N = in.iterations(cond, k, base.facts)
		} else if N == nil {
			N = Unk(SInt, "endless loop")
		}
		condEff = len(in.effects)
		if !in.st.dead() {
			in.st.facts = in.st.facts.with(Lt(k, N))
			if condE != nil {
				in.st.facts = in.st.facts.with(conjuncts(cond)...)
			}
			if cond == tFalse {
				in.st.live = tFalse
			}
		}
		if N.unk {
			// the range of k is not known; only k >= 0
		}
		bodyBase = in.st.clone()
		if pre != nil && !in.st.dead() {
			pre(k)
		}
		if !in.st.dead() {
			in.block(body.List)
		}
		for _, c := range ctx.conts {
			in.st = in.joinExits(bodyBase, c, in.st)
		}
		if post != nil && !in.st.dead() {
			in.stmt(post)
		}
		endSt = in.st
		fr.brk = fr.brk[:len(fr.brk)-1]
		in.loops = in.loops[:outerLvl]
		rets = append([]exitS{}, fr.rets[retMark:]...)

		// ---- scalars
		again := false
		if !endSt.dead() {
			type chg struct {
				path string
				h, e Value
			}
			var newly []string
			for c, h := range headVars {
				e, ok := endSt.vars[c]
				if !ok {
					continue
				}
				if _, cv := h.(CondV); cv {
					// a gated value may have lost a gate that the body's facts decide
					if l := info.leaf[c.key]; (l == nil || l.kind == lkSame) && !sameV(h, e) &&
						sameV(in.simpV(endSt.facts, h), in.simpV(endSt.facts, e)) {
						endSt.vars[c] = h
						continue
					}
				}
				walkLeaves(c.key, h, e, func(path string, a, b Value) {
					l := info.leaf[path]
					if l == nil || l.kind == lkSame {
						if !sameV(a, b) {
							if _, cv := a.(CondV); cv && sameV(in.simpV(endSt.facts, a), in.simpV(endSt.facts, b)) {
								return
							}
							if t, ok := a.(*Term); ok {
								if u, ok := b.(*Term); ok && t.sort == u.sort {
									if t.sort == SBool && (Decide(bodyBase.facts, And(Or(Not(t), u), Or(t, Not(u)))) == tTrue) {
										return
									}
									if t.sort == SInt && Prove(endSt.facts, Eq(t, u)) {
										return
									}
									if t.size > 3 && in.simpT(endSt.facts, t) == in.simpT(endSt.facts, u) {
										return
									}
								}
							}
							if in.trace {
								fmt.Printf("    changed %s: %v -> %v\n", path, a, b)
							}
							info.leaf[path] = &leafInfo{kind: lkProbe, init: a}
							newly = append(newly, path)
						}
						return
					}
					l.end = b
				})
			}
			if len(newly) > 0 {
				again = true
			} else {
				again = in.classify(info, live, k, probedNow, closed)
			}
		}
		if in.trace && again {
			fmt.Printf("  loop %s pass %d again\n", in.sitePos(node), pass)
			for p, l := range info.leaf {
				if l.kind != lkSame {
					fmt.Printf("      %s kind %d tries %d end %v g %v\n", p, l.kind, l.tries, l.end, l.g)
				}
			}
		}
		if again {
			continue
		}
		// ---- memory
		if in.checkLoopMem(info, lr, base, endSt, ctx, rets, k, N) {
			if in.trace {
				fmt.Printf("  loop %s pass %d memory again\n", in.sitePos(node), pass)
			}
			for p, l := range info.leaf {
				if l.kind == lkInc || l.kind == lkPrev || l.kind == lkFold {
					delete(probedNow, p)
				}
			}
			continue
		}
		break
	}
	if endSt.dead() && len(ctx.brks) == 0 && len(rets) == 0 && condE == nil && rangeN == nil {
		in.st = endSt
		return
	}

	// ---- resolve the recurrences
	sub := map[*Term]*Term{}
	if endSt.dead() {
		// no iteration completes: at the loop head every variable still has its initial value
		for _, l := range live {
			if l.kind == lkProbe {
				l.kind = lkSame
			}
		}
	}
	in.resolvePhis(live, k, closed, sub)
	sb := func(t *Term) *Term {
		if len(sub) == 0 {
			return t
		}
		return subst(t, sub)
	}
	sbv := func(v Value, at *Term) Value {
		if len(sub) > 0 {
			v = substV(v, sub)
		}
		if at != nil && at != k {
			v = substV(v, map[*Term]*Term{k: at})
		}
		return v
	}
	kf := base.facts.with(Ge0(k), Lt(k, N))

	// ---- exits
	N = sb(N)
	E := tFalse
	rel := func(s *State) *Term { return sb(in.relCond(bodyBase.facts, s.live)) }
	surv := tFalse
	if !endSt.dead() {
		surv = rel(endSt)
	}
	for _, b := range ctx.brks {
		if !b.dead() {
			E = Or(E, rel(b))
		}
	}
	for _, r := range rets {
		if !r.st.dead() {
			E = Or(E, rel(r.st))
		}
	}
	surv = Or(surv, E)
	if bodyBase.dead() {
		surv = tTrue
	}
	E = Decide(kf, in.simpT(kf, E))
	P := Decide(kf, Not(surv))
	nAll := N // iterations when nothing exits early
	if !Prove(base.facts, Ge0(N)) && !N.unk {
		nAll = in.simpT(base.facts, MaxI(Int(0), N))
	}
	nExit, nBody, took := nAll, N, tFalse
	if E != tFalse {
		nExit = in.simpT(base.facts, First(k, N, E))
		nBody = MinI(N, AddC(nExit, 1))
		took = Exists(k, N, E)
		if E == tTrue {
			nBody = MinI(N, Int(1))
			took = Ge0(AddC(N, -1))
		}
		nBody = in.simpT(base.facts, nBody)
		took = Decide(base.facts, took)
	}
	if N.unk {
		nAll, nExit = N, N
		if E != tFalse {
			nExit = Unk(SInt, "exit of a loop of unknown length")
			took = Unk(SBool, "exit of a loop of unknown length")
		}
		nBody = N
	}

	// ---- effects of the body are quantified
	for i := effMark; i < len(in.effects); i++ {
		e := in.effects[i]
		n := nBody
		if i < condEff {
			n = AddC(nBody, 1)
		}
		ne := *e
		ne.cond = sb(e.cond)
		ne.oidx = substTerms(e.oidx, sub)
		if e.idx != nil {
			ne.idx = sb(e.idx)
		}
		ne.bs = []binder{{k, n}}
		for _, b := range e.bs {
			ne.bs = append(ne.bs, binder{b.v, sb(b.n)})
		}
		ne.vals = nil
		for _, v := range e.vals {
			ne.vals = append(ne.vals, sbv(v, nil))
		}
		in.effects[i] = &ne
	}

	// ---- memory after the loop
	states := []*State{endSt}
	for _, b := range ctx.brks {
		states = append(states, b)
	}
	for _, r := range rets {
		states = append(states, r.st)
	}
	mem := map[*VObj]*Content{}
	for o, c := range base.mem {
		mem[o] = c
	}
	var objs []*VObj
	seenO := map[*VObj]bool{}
	for _, s := range states {
		for o := range s.mem {
			if !seenO[o] {
				seenO[o] = true
				objs = append(objs, o)
			}
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].key < objs[j].key })
	for _, o := range objs {
		news, ver, havoc := in.newRegs(o, lr, states)
		if info.mode[o] == omHavoc {
			havoc = true
		}
		if len(news) == 0 && !havoc {
			continue
		}
		bc := base.mem[o]
		if bc == nil {
			bc = &Content{}
		}
		if havoc || info.mode[o] == omHavoc {
			if len(news) > 0 || havoc {
				mem[o] = &Content{havoc: true, lvl: bc.lvl}
				if in.coarse > 0 {
					if _, ok := sortOf(o.typ); ok {
						mem[o] = &Content{ver: "left@" + key + "@" + o.key, vargs: in.loopSyms(), lvl: bc.lvl}
					}
				}
			}
			continue
		}
		nc := &Content{ver: bc.ver, vargs: bc.vargs, gen: bc.gen, perm: bc.perm, ord: bc.ord, alt: bc.alt, altc: bc.altc, permNo: bc.permNo, havoc: bc.havoc, lvl: bc.lvl, regs: bc.regs[:len(bc.regs):len(bc.regs)]}
		var vsym *Term
		if ver != "" && info.mode[o] == omVer {
			vsym = Sym(ver, SAny)
			news = in.accumulate(o, news, vsym)
		}
		for _, r := range news {
			kk := FreshSym("k", SInt)
			tm.nonneg[kk] = true
			m := map[*Term]*Term{k: kk}
			ren := func(t *Term) *Term { return subst(sb(t), m) }
			nr := &Region{acc: r.acc, pos: r.pos, guard: ren(r.guard), idx: ren(r.idx)}
			nr.bs = []binder{{kk, nBody}}
			for _, b := range r.bs {
				nr.bs = append(nr.bs, binder{b.v, ren(b.n)})
			}
			for _, t := range r.oidx {
				nr.oidx = append(nr.oidx, ren(t))
			}
			nr.val = substV(sbv(r.val, nil), m)
			if nr.acc && outerLvl > 0 {
				f := kf
				for _, b := range r.bs {
					f = f.with(Ge0(b.v), Lt(b.v, b.n))
				}
				f = f.with(conjuncts(r.guard)...)
				in.accMode = true
				in.readFrom(bc, len(bc.regs)-1, o, r.oidx, r.idx, f, 0)
				in.accMode = false
			}
			nc.regs = append(nc.regs, nr)
		}
		mem[o] = nc
	}

	// ---- variables after the loop
	at := nExit
	post1 := base.clone()
	post1.mem = mem
	for c, h := range headVars {
		hv := sbv(h, nil)
		v := in.simpV(base.facts, substV(hv, map[*Term]*Term{k: at}))
		for _, b := range ctx.brks {
			if b.dead() {
				continue
			}
			bv, ok := b.vars[c]
			if !ok {
				continue
			}
			bv = sbv(bv, nil)
			if sameV(bv, hv) {
				continue
			}
			cb := And(took, subst1(rel(b), k, nExit))
			if N.unk {
				v = in.unkOf(c.typ, "loop exit")
				continue
			}
			v = mkCond(cb, in.simpV(base.facts.with(cb), substV(bv, map[*Term]*Term{k: nExit})), v)
		}
		post1.vars[c] = v
	}
	gone := tFalse
	for _, r := range rets {
		if r.st.dead() {
			continue
		}
		c := And(took, subst1(rel(r.st), k, nExit))
		c = Decide(base.facts, c)
		if c == tFalse {
			continue
		}
		gone = Or(gone, c)
	}
	var newRets []exitS
	for _, r := range rets {
		if r.st.dead() {
			continue
		}
		c := And(took, subst1(rel(r.st), k, nExit))
		c = Decide(base.facts, c)
		if c == tFalse {
			continue
		}
		rs := base.clone()
		rs.mem = mem
		m := map[*Term]*Term{k: nExit}
		for cell, v := range r.st.vars {
			rs.vars[cell] = substV(sbv(v, nil), m)
		}
		rs.live = And(base.live, c)
		rs.facts = base.facts.with(c)
		vals := make(TupleV, len(r.vals))
		for i, v := range r.vals {
			vals[i] = in.simpV(rs.facts, substV(sbv(v, nil), m))
		}
		newRets = append(newRets, exitS{rs, vals})
	}
	fr.rets = append(fr.rets[:retMark], newRets...)
	cont := Not(gone)
	if P != tFalse {
		if N.unk {
			cont = And(cont, Not(Unk(SBool, "panic in a loop of unknown length")))
		} else {
			cont = And(cont, Not(Exists(k, nBody, P)))
		}
	}
	cont = Decide(base.facts, cont)
	post1.live = And(base.live, cont)
	post1.facts = base.facts.with(cont)
	if P == tTrue && E == tFalse && cont != tFalse && !N.unk {
		// every iteration panics: the code after the loop runs only when there is none
		post1.facts = post1.facts.with(Ge0(Scale(N, -1)))
	}
	in.st = post1
}

// iterations derives the number of iterations from the loop condition at iteration k: the
// least k for which it fails.
func (in *Interp) iterations(c, k *Term, base *Facts) *Term {
	if c == tTrue {
		return Unk(SInt, "endless loop")
	}
	if c == tFalse {
		return Int(0)
	}
	if c.unk {
		return Unk(SInt, "loop condition")
	}
	if !c.syms[k] {
		return Unk(SInt, "loop condition without a counter")
	}
	var n *Term
	rest := tTrue
	for _, x := range conjuncts(c) {
		var cand *Term
		if x.op == OGe0 {
			coef, r, ok := linearIn(x.args[0], map[*Term]bool{k: true})
			if ok && len(coef) == 1 {
				if b, isC := constantT(coef[k]); isC && b < 0 {
					// r - |b|*k >= 0: k <= r/|b|
					if b == -1 {
						cand = AddC(r, 1)
					} else {
						q := Int(int64(-b))
						// floor(r/q)+1, for r >= 0; 0 when r < 0
						t := Add(r, q)
						if Prove(base, Ge0(t)) {
							cand = in.simpDivF(base, t, q)
						} else {
							cand = in.simpDivF(base.with(Ge0(MaxI(Int(0), t))), MaxI(Int(0), t), q)
						}
					}
				}
			} else if ok && len(coef) == 0 {
				// loop invariant conjunct
				cand = nil
			}
		}
		if x.op == ONot && x.args[0].op == OEq0 {
			coef, r, ok := linearIn(x.args[0].args[0], map[*Term]bool{k: true})
			if ok && len(coef) == 1 {
				if b, isC := constantT(coef[k]); isC && (b == 1 || b == -1) {
					v := Scale(r, -b)
					if Prove(base, Ge0(v)) {
						cand = v
					}
				}
			}
		}
		if cand == nil {
			rest = And(rest, x)
		} else if n == nil {
			n = cand
		} else {
			n = MinI(n, cand)
		}
	}
	if n == nil {
		return Unk(SInt, "loop condition")
	}
	if rest.syms != nil {
		for s := range rest.syms {
			if s.op == OSym && len(s.name) > 2 && s.name[:len("φ@")] == "φ@" && !in.outerPhi(s) {
				return Unk(SInt, "loop condition over a recurrence")
			}
		}
	}
	n = in.simpT(base, n)
	if rest != tTrue {
		return First(k, n, Not(rest))
	}
	return n
}

func (in *Interp) outerPhi(s *Term) bool { return false }

// classify decides the kind of every probed leaf. It returns true when another pass is needed.
func (in *Interp) classify(info *loopInfo, live map[string]*leafInfo, k *Term, probed map[string]bool, closed func(*leafInfo, *Term) Value) bool {
	again := false
	var paths []string
	for p := range live {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	phis := map[*Term]string{}
	for _, p := range paths {
		l := live[p]
		if l.phi != nil && (l.kind == lkProbe || l.kind == lkFold) {
			phis[l.phi] = p
		}
	}
	free := func(t *Term) bool {
		for s := range phis {
			if t.syms[s] {
				return false
			}
		}
		return true
	}
	freeV := func(v Value) bool {
		r := !valUnk(v)
		valTerms(v, func(t *Term) {
			if !free(t) {
				r = false
			}
		})
		return r
	}
	solved := map[*Term]*Term{}
	progress := true
	for progress {
		progress = false
		for _, p := range paths {
			l := live[p]
			if l.kind != lkProbe && l.kind != lkFold || l.end == nil {
				continue
			}
			t, num := l.end.(*Term)
			if !num || l.phi == nil || t.sort != l.phi.sort {
				if l.kind == lkProbe && (l.phi == nil || !num) {
					if freeV(l.end) {
						l.kind, l.gv, l.g = lkPrev, l.end, nil
					} else {
						l.kind = lkUnk
					}
					again, progress = true, true
				}
				continue
			}
			t = subst(t, solved)
			if t.unk {
				l.kind = lkUnk
				delete(phis, l.phi)
				again, progress = true, true
				continue
			}
			if t.sort != SBool {
				d := Sub(t, l.phi)
				if free(d) {
					if isConst(d, 0) {
						// not changed after all
						l.kind = lkSame
						delete(phis, l.phi)
						solved[l.phi] = l.init.(*Term)
						again, progress = true, true
						continue
					}
					l.kind, l.g = lkInc, d
					probed[p] = true
					delete(phis, l.phi)
					c := closed(l, k).(*Term)
					solved[l.phi] = c
					if t.sort == SInt {
						again = true
					}
					progress = true
					continue
				}
			}
			if free(t) {
				l.kind, l.g, l.gv = lkPrev, t, nil
				probed[p] = true
				delete(phis, l.phi)
				solved[l.phi] = closed(l, k).(*Term)
				again, progress = true, true
				continue
			}
		}
	}
	for _, p := range paths {
		l := live[p]
		switch l.kind {
		case lkProbe:
			if l.end != nil {
				l.kind = lkFold
				probed[p] = true
			}
		case lkInc:
			if l.end == nil {
				continue
			}
			t, num := l.end.(*Term)
			if !num {
				l.kind = lkUnk
				again = true
				continue
			}
			if t.sort == SFloat {
				// the head was the symbol; the increment is recomputed by this pass
				if l.phi == nil {
					continue
				}
				t2 := t
				d := Sub(t2, l.phi)
				if d.syms[l.phi] || !free(d) {
					l.kind = lkFold
					again = true
					continue
				}
				if d.unk {
					l.kind = lkUnk
					again = true
					continue
				}
				l.g = d
				continue
			}
			if probed[p] {
				continue
			}
			h := closed(l, k).(*Term)
			d := Sub(t, h)
			if d != l.g && !Prove(nil, Eq(d, l.g)) {
				l.tries++
				l.kind = lkProbe
				if l.tries > 3 {
					l.kind = lkUnk
				}
				again = true
			}
		case lkPrev:
			if l.end == nil || probed[p] {
				continue
			}
			same := false
			if l.gv != nil {
				same = sameV(l.gv, l.end)
			} else if t, ok := l.end.(*Term); ok {
				same = t == l.g
			}
			if !same {
				l.tries++
				l.kind = lkProbe
				if l.tries > 3 {
					l.kind = lkUnk
				}
				again = true
			}
		}
	}
	return again
}

// resolvePhis fills sub with the closed forms (in k) of the remaining recurrence symbols.
func (in *Interp) resolvePhis(live map[string]*leafInfo, k *Term, closed func(*leafInfo, *Term) Value, sub map[*Term]*Term) {
	var paths []string
	for p := range live {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	// general recurrences first: the accumulated sums may depend on them
	var phi, init, upd []*Term
	var fl []*leafInfo
	var incs []*leafInfo
	for _, p := range paths {
		l := live[p]
		if l.phi == nil {
			continue
		}
		switch l.kind {
		case lkFold:
			t, ok := l.end.(*Term)
			i, ok2 := l.init.(*Term)
			if !ok || !ok2 {
				sub[l.phi] = Unk(l.phi.sort, "recurrence")
				continue
			}
			fl = append(fl, l)
			phi, init, upd = append(phi, l.phi), append(init, i), append(upd, t)
		case lkInc:
			if l.phi.sort == SFloat {
				incs = append(incs, l)
			}
		case lkUnk:
			sub[l.phi] = Unk(l.phi.sort, "recurrence")
		case lkSame:
			if t, ok := l.init.(*Term); ok {
				sub[l.phi] = t
			}
		case lkPrev:
			if t, ok := closed(l, k).(*Term); ok {
				sub[l.phi] = t
			}
		case lkProbe:
			sub[l.phi] = Unk(l.phi.sort, "recurrence that is never updated")
		}
	}
	// sums that do not depend on the recurrences
	dep := func(t *Term, set map[*Term]bool) bool {
		for s := range t.syms {
			if set[s] {
				return true
			}
		}
		return false
	}
	pend := map[*Term]bool{}
	for _, p := range phi {
		pend[p] = true
	}
	incPend := map[*Term]bool{}
	for _, l := range incs {
		incPend[l.phi] = true
	}
	for round := 0; round <= len(incs); round++ {
		for _, l := range incs {
			if !incPend[l.phi] || dep(l.g, pend) {
				continue
			}
			g := subst(l.g, sub)
			if dep(g, incPend) {
				continue
			}
			l.g = g
			sub[l.phi] = closed(l, k).(*Term)
			delete(incPend, l.phi)
		}
	}
	if len(fl) > 0 {
		for i := range upd {
			upd[i] = subst(upd[i], sub)
		}
		bad := false
		for _, u := range upd {
			if dep(u, incPend) || u.unk {
				bad = true
			}
		}
		for i, l := range fl {
			if bad {
				sub[l.phi] = Unk(l.phi.sort, "recurrence")
				continue
			}
			// only the components this one depends on
			b := FreshSym("k", SInt)
			us := make([]*Term, 0)
			ph, ini := []*Term{}, []*Term{}
			which := 0
			for _, j := range closure(phi, upd, i) {
				if j == i {
					which = len(ph)
				}
				ph, ini = append(ph, phi[j]), append(ini, init[j])
				us = append(us, subst1(upd[j], k, b))
			}
			sub[l.phi] = Fold(b, k, ph, ini, us, which)
		}
	}
	for _, l := range incs {
		if incPend[l.phi] {
			g := subst(l.g, sub)
			if dep(g, incPend) {
				sub[l.phi] = Unk(SFloat, "recurrence")
				continue
			}
			l.g = g
			sub[l.phi] = closed(l, k).(*Term)
			delete(incPend, l.phi)
		}
	}
}

// closure lists the recurrence components that component i depends on (itself included).
func closure(phi, upd []*Term, i int) []int {
	in := map[int]bool{i: true}
	for ch := true; ch; {
		ch = false
		for j := range phi {
			if !in[j] {
				continue
			}
			for m := range phi {
				if !in[m] && upd[j].syms[phi[m]] {
					in[m] = true
					ch = true
				}
			}
		}
	}
	var out []int
	for j := range phi {
		if in[j] {
			out = append(out, j)
		}
	}
	return out
}

// newRegs lists the regions the body adds to an object.
func (in *Interp) newRegs(o *VObj, lr *loopRun, states []*State) (news []*Region, ver string, havoc bool) {
	b := lr.bound[o]
	seen := map[*Region]bool{}
	for _, s := range states {
		c := s.mem[o]
		if c == nil {
			continue
		}
		if c.ver != "" {
			ver = c.ver
		}
		if c.havoc {
			havoc = true
		}
		for i := b; i < len(c.regs); i++ {
			if !seen[c.regs[i]] {
				seen[c.regs[i]] = true
				news = append(news, c.regs[i])
			}
		}
	}
	if havoc && lr.havoc[o] && len(news) == 0 {
		// havoc that was there already
		havoc = false
	}
	return
}

// checkLoopMem verifies that iterations do not depend on each other through memory, switching
// the analysis mode of the objects for which they do. It returns true when the body has to be
// analysed again.
func (in *Interp) checkLoopMem(info *loopInfo, lr *loopRun, base, endSt *State, ctx *brkCtx, rets []exitS, k, N *Term) bool {
	states := []*State{endSt}
	for _, b := range ctx.brks {
		states = append(states, b)
	}
	for _, r := range rets {
		states = append(states, r.st)
	}
	seen := map[*VObj]bool{}
	var objs []*VObj
	for _, s := range states {
		for o := range s.mem {
			if !seen[o] {
				seen[o] = true
				objs = append(objs, o)
			}
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].key < objs[j].key })
	k1 := FreshSym("k1", SInt)
	tm.nonneg[k1] = true
	again := false
	for _, o := range objs {
		if info.mode[o] == omHavoc {
			continue
		}
		news, _, havoc := in.newRegs(o, lr, states)
		if len(news) == 0 || havoc {
			continue
		}
		type qr struct {
			r    *Region
			oidx []*Term
			idx  *Term
			bs   []binder
			g    *Term
		}
		earlier := func(r *Region) qr {
			m := map[*Term]*Term{k: k1}
			q := qr{r: r}
			for _, b := range r.bs {
				v := FreshSym("q", SInt)
				tm.nonneg[v] = true
				m[b.v] = v
			}
			for _, b := range r.bs {
				q.bs = append(q.bs, binder{m[b.v], subst(b.n, m)})
			}
			q.oidx = substTerms(r.oidx, m)
			q.idx = subst(r.idx, m)
			q.g = subst(r.guard, m)
			return q
		}
		conflict := func(q qr, oidx []*Term, idx *Term, f *Facts) bool {
			if len(q.oidx) != len(oidx) {
				return true
			}
			f = f.with(Lt(k1, k))
			for i := range oidx {
				d := Sub(q.oidx[i], oidx[i])
				if d == Sub(k1, k) || d == Sub(k, k1) {
					return false
				}
				if c, ok := constantT(d); ok && c != 0 {
					return false
				}
			}
			d := Sub(q.idx, idx)
			if c, ok := constantT(d); ok && c != 0 {
				return false
			}
			var eqs []*Term
			for i := range oidx {
				eqs = append(eqs, Sub(q.oidx[i], oidx[i]))
			}
			eqs = append(eqs, d)
			for _, e := range eqs {
				if e.unk {
					return true
				}
			}
			f2 := f
			for _, b := range q.bs {
				f2 = f2.with(Ge0(b.v), Lt(b.v, b.n))
			}
			// the index equations may determine the earlier iteration
			bs := append([]binder{{k1, N}}, q.bs...)
			if !N.unk {
				if sol, _, ok := in.solve(eqs, bs, f); ok {
					if v, ok := sol[k1]; ok && Prove(f, Ge0(Sub(v, k))) {
						return false
					}
				}
			}
			f2 = f2.with(conjuncts(q.g)...)
			for _, e := range eqs {
				f2 = f2.with(Eq0(e))
			}
			return !proveContra(f2)
		}
		qs := make([]qr, len(news))
		for i, r := range news {
			qs[i] = earlier(r)
		}
		next := objMode(-1)
		if info.mode[o] == omFree {
			type rk struct {
				i *Term
				n int
			}
			done := map[rk]bool{}
			for _, rd := range lr.reads {
				if rd.obj != o || next >= 0 {
					continue
				}
				_ = done
				for _, q := range qs {
					if rd.acc && q.r.acc {
						continue
					}
					if conflict(q, rd.oidx, rd.idx, rd.facts) {
						if in.trace {
							fmt.Printf("   conflict: %s read %v%v (%s) against write %v%v (%s)\n", o.key, rd.oidx, rd.idx, rd.pos, q.oidx, q.idx, q.r.pos)
						}
						next = omVer
						break
					}
				}
			}
		}
		if next < 0 {
			// order of writes
			for i := 0; i < len(news) && next < 0; i++ {
				for j := i + 1; j < len(news); j++ {
					r := news[i]
					accI, accJ := in.isAcc(r, o, info, lr), in.isAcc(news[j], o, info, lr)
					if accI && accJ {
						continue
					}
					f := base.facts.with(Ge0(k), Lt(k, N))
					for _, b := range r.bs {
						f = f.with(Ge0(b.v), Lt(b.v, b.n))
					}
					f = f.with(conjuncts(r.guard)...)
					if sameV(r.val, news[j].val) {
						if _, isT := r.val.(*Term); isT && len(r.val.(*Term).syms) == 0 {
							continue
						}
					}
					if conflict(qs[j], r.oidx, r.idx, f) {
						if in.trace {
							fmt.Printf("   order conflict on %s: %s and %s\n", o.key, r.pos, news[j].pos)
						}
						next = omHavoc
						break
					}
				}
			}
		}
		if next >= 0 {
			info.mode[o] = next
			again = true
		}
	}
	return again
}

func (in *Interp) isAcc(r *Region, o *VObj, info *loopInfo, lr *loopRun) bool {
	if r.acc {
		return true
	}
	if info.mode[o] != omVer {
		return false
	}
	t, ok := r.val.(*Term)
	if !ok {
		return false
	}
	for s := range t.syms {
		if s.sort == SAny {
			v := App("ver", t.sort, append(append([]*Term{s}, r.oidx...), r.idx)...)
			d := Sub(t, v)
			if !d.syms[s] {
				return true
			}
		}
	}
	return false
}

// accumulate rewrites the regions of a versioned object: a write of the old content plus a
// term becomes an accumulation; anything else that depends on the old content is given up.
func (in *Interp) accumulate(o *VObj, news []*Region, vsym *Term) []*Region {
	var out []*Region
	depV := func(v Value) bool {
		d := false
		valTerms(v, func(t *Term) {
			if t.syms[vsym] {
				d = true
			}
		})
		return d
	}
	for _, r := range news {
		n := *r
		if n.guard.syms[vsym] || n.idx.syms[vsym] {
			n.val = in.unkOf(o.typ, "write that depends on the array")
			n.guard = tTrue
		}
		if !n.acc {
			if t, ok := r.val.(*Term); ok && t.syms[vsym] {
				v := App("ver", t.sort, append(append([]*Term{vsym}, r.oidx...), r.idx)...)
				d := Sub(t, v)
				if !d.syms[vsym] {
					n.acc, n.val = true, d
				} else {
					n.val = Unk(t.sort, "array recurrence")
				}
			} else if !ok && depV(r.val) {
				n.val = in.unkOf(o.typ, "array recurrence")
			}
		} else if depV(n.val) {
			n.val = in.unkOf(o.typ, "array recurrence")
		}
		// an earlier accumulation of the same iteration at the same place is part of this one
		if n.acc && len(n.bs) == 0 {
			for i := 0; i < len(out); i++ {
				p := out[i]
				if p.acc && len(p.bs) == 0 && p.idx == n.idx && sameTerms(p.oidx, n.oidx) {
					if p.guard == n.guard {
						out = append(out[:i:i], out[i+1:]...)
						i--
					} else {
						n.val = in.unkOf(o.typ, "conditional accumulations")
						n.acc = false
					}
				}
			}
		}
		out = append(out, &n)
	}
	return out
}

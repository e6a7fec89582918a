package main

import (
	"fmt"
)

// Memory of the value-flow analysis: reading a location resolves it against the log of
// (quantified) writes, newest first, by solving the index equations for the loop binders.

type readLog struct {
	obj   *VObj
	oidx  []*Term
	idx   *Term
	facts *Facts
	pos   string
	acc   bool
}

func zeroTerm(s Sort) *Term {
	if s == SBool {
		return tFalse
	}
	return Num(s, 0)
}

func (in *Interp) readMem(obj *VObj, oidx []*Term, idx *Term) Value {
	c := in.st.mem[obj]
	if c == nil {
		c = &Content{}
	}
	v := in.readFrom(c, len(c.regs)-1, obj, oidx, idx, in.st.facts, 0)
	return in.simpV(in.st.facts, v)
}

// condV simplifies Ite chains while building them.
func (in *Interp) readFrom(c *Content, i int, obj *VObj, oidx []*Term, idx *Term, facts *Facts, depth int) Value {
	in.tick()
	for ; ; i-- {
		for li, l := range in.loops {
			if li < c.lvl {
				continue
			}
			if b, ok := l.bound[obj]; ok && b == i+1 || !ok && i == -1 {
				l.reads = append(l.reads, readLog{obj, oidx, idx, facts, in.where(), in.accMode})
			}
		}
		if i < 0 {
			break
		}
		r := c.regs[i]
		m := in.match(r, oidx, idx, facts)
		switch m.kind {
		case matchNone:
			continue
		case matchUnknown:
			return UnkV{"a write that could not be resolved"}
		case matchRsel:
			rest := in.readFrom(c, i-1, obj, oidx, idx, facts, depth+1)
			rv, ok1 := r.val.(*Term)
			el, ok2 := rest.(*Term)
			if !ok1 || !ok2 {
				return UnkV{"a write that could not be resolved"}
			}
			if r.acc {
				var ns, bs []*Term
				body := Ite(And(append([]*Term{r.guard}, eqTerms(m.eqs)...)...), rv, zeroTerm(rv.sort))
				for _, b := range r.bs {
					bs = append(bs, b.v)
					ns = append(ns, b.n)
				}
				for j := len(bs) - 1; j >= 0; j-- {
					body = Sum(bs[j], ns[j], body)
				}
				return Add(el, body)
			}
			var bs, ns []*Term
			for _, b := range r.bs {
				bs = append(bs, b.v)
				ns = append(ns, b.n)
			}
			return Rsel(bs, ns, r.guard, m.eqs, rv, el)
		}
		val := m.val
		if r.acc {
			rest := in.readFrom(c, i-1, obj, oidx, idx, facts, depth+1)
			vt, ok1 := val.(*Term)
			rt, ok2 := rest.(*Term)
			if !ok1 || !ok2 {
				return UnkV{"accumulated unknown"}
			}
			return Add(rt, Ite(m.cond, vt, zeroTerm(vt.sort)))
		}
		if m.cond == tTrue {
			return val
		}
		rest := in.readFrom(c, i-1, obj, oidx, idx, facts.with(Not(m.cond)), depth+1)
		return mkCond(m.cond, val, rest)
	}
	if c.havoc {
		return in.unkOf(obj.typ, "havoc of "+obj.key)
	}
	if c.alt != nil && in.wantOrder {
		cond := Decide(facts, c.altc)
		read := func(c *Content, f *Facts) Value { return in.readFrom(c, len(c.regs)-1, obj, oidx, idx, f, depth+1) }
		if cond == tTrue {
			return read(c.alt[0], facts)
		}
		if cond == tFalse {
			return read(c.alt[1], facts)
		}
		return mkCond(cond, read(c.alt[0], facts.with(cond)), read(c.alt[1], facts.with(Not(cond))))
	}
	if c.ver != "" {
		if s, ok := sortOf(obj.typ); ok {
			args := append(append([]*Term{Sym(c.ver, SAny)}, c.vargs...), oidx...)
			if c.perm != nil {
				return App("pver", s, append(args, c.perm, idx)...)
			}
			if c.ord != nil {
				return App("over", s, append(args, c.ord, idx)...)
			}
			if in.wantPerm && s == SInt && !c.permNo && wildVer(c.ver) {
				return Unk(SInt, "an array that may be a permutation")
			}
			if c.permNo {
				if in.permNos == nil {
					in.permNos = map[string]bool{}
				}
				in.permNos[c.ver] = true
			}
			return App("ver", s, append(args, idx)...)
		}
		if c.gen != nil {
			args := append(append(append([]*Term{Sym(c.ver, SAny)}, c.vargs...), oidx...), idx)
			g := *c.gen
			g.oidx = make([]*Term, len(c.gen.oidx))
			for i := range g.oidx {
				g.oidx[i] = App("row", SInt, append(args, Int(int64(i)))...)
			}
			return g
		}
		return in.unkOf(obj.typ, "loop-carried reference")
	}
	return obj.init(oidx, idx)
}

func eqTerms(eqs []*Term) []*Term {
	var out []*Term
	for _, e := range eqs {
		out = append(out, Eq0(e))
	}
	return out
}

const (
	matchNone = iota
	matchVal
	matchRsel
	matchUnknown
)

type matchRes struct {
	kind int
	cond *Term
	val  Value
	eqs  []*Term
}

func (in *Interp) match(r *Region, oidx []*Term, idx *Term, facts *Facts) matchRes {
	if len(r.oidx) != len(oidx) {
		return matchRes{kind: matchUnknown}
	}
	var eqs []*Term
	for i := range oidx {
		eqs = append(eqs, Sub(r.oidx[i], oidx[i]))
	}
	eqs = append(eqs, Sub(r.idx, idx))
	for _, e := range eqs {
		if e.unk {
			return matchRes{kind: matchUnknown}
		}
	}
	// quick refutation
	for _, e := range eqs {
		if c, ok := constantT(e); ok && c != 0 {
			return matchRes{kind: matchNone}
		}
	}
	sub, extra, ok := in.solve(eqs, r.bs, facts)
	if !ok || len(sub) < len(r.bs) {
		// equations in the guard may determine the remaining binders
		more := append([]*Term{}, eqs...)
		for _, g := range conjuncts(r.guard) {
			if g.op == OEq0 && g.args[0].sort == SInt {
				for _, b := range r.bs {
					if g.syms[b.v] {
						more = append(more, g.args[0])
						break
					}
				}
			}
		}
		if len(more) > len(eqs) {
			if s2, e2, ok2 := in.solve(more, r.bs, facts); ok2 {
				sub, extra, ok = s2, e2, true
			}
		}
	}
	if !ok {
		// an unresolved region: maybe it can be refuted altogether
		f := facts
		for _, b := range r.bs {
			f = f.with(Ge0(b.v), Lt(b.v, b.n))
		}
		f = f.with(conjuncts(r.guard)...)
		for _, e := range eqs {
			f = f.with(Eq0(e))
		}
		if proveContra(f) {
			return matchRes{kind: matchNone}
		}
		if in.trace {
			fmt.Printf("   rsel: %v = %v,%v bs %v\n", eqs, oidx, idx, r.bs)
		}
		return matchRes{kind: matchRsel, eqs: eqs}
	}
	cond := And(extra...)
	// the solved binders' ranges, then the guard
	var left []binder
	memo := map[*Term]*Term{}
	for _, b := range r.bs {
		if v, ok := sub[b.v]; ok {
			n := substM(b.n, sub, memo)
			cond = And(cond, Ge0(v), Lt(v, n))
		} else {
			left = append(left, binder{b.v, substM(b.n, sub, memo)})
		}
	}
	cond = Decide(facts, cond)
	if cond == tFalse {
		return matchRes{kind: matchNone}
	}
	guard := substM(r.guard, sub, memo)
	val := substV(r.val, sub)
	if len(left) == 0 {
		f2 := facts.with(cond)
		g := in.decideGuard(f2, guard)
		if g == tFalse {
			return matchRes{kind: matchNone}
		}
		return matchRes{kind: matchVal, cond: And(cond, g), val: in.simpV(f2.with(g), val)}
	}
	if r.acc {
		vt, ok := val.(*Term)
		if !ok {
			return matchRes{kind: matchUnknown}
		}
		f2 := facts.with(cond)
		f3 := f2
		for _, b := range left {
			f3 = f3.with(Ge0(b.v), Lt(b.v, b.n))
		}
		body := Ite(in.decideGuard(f3, guard), vt, zeroTerm(vt.sort))
		for j := len(left) - 1; j >= 0; j-- {
			body = Sum(left[j].v, left[j].n, body)
		}
		return matchRes{kind: matchVal, cond: cond, val: in.simpV(f2, body)}
	}
	// the location does not depend on these binders: the last iteration wins
	for j := len(left) - 1; j >= 0; j-- {
		b := left[j]
		f3 := facts.with(cond)
		for _, x := range left[:j+1] {
			f3 = f3.with(Ge0(x.v), Lt(x.v, x.n))
		}
		guard = in.decideGuard(f3, guard)
		if guard.syms[b.v] {
			return matchRes{kind: matchRsel, eqs: eqs}
		}
		one := map[*Term]*Term{b.v: AddC(b.n, -1)}
		cond = And(cond, Ge0(AddC(b.n, -1)))
		val = substV(val, one)
	}
	cond = Decide(facts, And(cond, guard))
	if cond == tFalse {
		return matchRes{kind: matchNone}
	}
	return matchRes{kind: matchVal, cond: cond, val: in.simpV(facts.with(cond), val)}
}

// decideGuard drops the conjuncts of a guard that the reader already knows.
func (in *Interp) decideGuard(f *Facts, g *Term) *Term {
	if g == tTrue {
		return g
	}
	return Decide(f, g)
}

// linearIn splits e into sum of coef*unknown plus rest; ok when linear.
func linearIn(e *Term, unk map[*Term]bool) (coef map[*Term]*Term, rest *Term, ok bool) {
	coef = map[*Term]*Term{}
	rest = Num(SInt, 0)
	for _, m := range polyOf(e) {
		var u *Term
		var others []*Term
		for _, f := range m.f {
			dep := false
			for s := range f.syms {
				if unk[s] {
					dep = true
				}
			}
			if dep {
				if u != nil || !unk[f] {
					return nil, nil, false
				}
				u = f
			} else {
				others = append(others, f)
			}
		}
		mono := mkPoly(SInt, []Mono{{m.c, others}})
		if u == nil {
			rest = Add(rest, mono)
			continue
		}
		if c, ok := coef[u]; ok {
			coef[u] = Add(c, mono)
		} else {
			coef[u] = mono
		}
	}
	for u, c := range coef {
		if isConst(c, 0) {
			delete(coef, u)
		}
	}
	return coef, rest, true
}

// polyDiv divides a by s syntactically: a = q*s + r, leading by an atom of s (or its constant).
func polyDiv(a, s *Term) (q, r *Term, ok bool) {
	// leading monomial of s: prefer a monomial with atoms and coefficient +-1
	var lead *Mono
	ms := polyOf(s)
	for i := range ms {
		m := ms[i]
		if len(m.f) > 0 && (m.c == 1 || m.c == -1) {
			if lead == nil || len(m.f) > len(lead.f) {
				lead = &ms[i]
			}
		}
	}
	if lead == nil {
		if c, isC := constantT(s); isC && c > 0 {
			// constant: monomials whose coefficient is a multiple
			q, r = Int(0), Int(0)
			for _, m := range polyOf(a) {
				k := m.c / c
				if len(m.f) > 0 && k == float64(int64(k)) {
					q = Add(q, mkPoly(SInt, []Mono{{k, m.f}}))
				} else if len(m.f) == 0 {
					fl := floorDiv(int64(m.c), int64(c))
					q = Add(q, Int(fl))
					r = Add(r, Int(int64(m.c)-fl*int64(c)))
				} else {
					r = Add(r, mkPoly(SInt, []Mono{m}))
				}
			}
			return q, r, true
		}
		return nil, nil, false
	}
	q, r = Int(0), a
	for step := 0; step < 12; step++ {
		done := true
		for _, m := range polyOf(r) {
			rem, has := removeFactors(m.f, lead.f)
			if !has {
				continue
			}
			t := mkPoly(SInt, []Mono{{m.c * lead.c, rem}})
			q = Add(q, t)
			r = Sub(r, Mul(t, s))
			done = false
			break
		}
		if done {
			return q, r, true
		}
	}
	return nil, nil, false
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func removeFactors(f, l []*Term) ([]*Term, bool) {
	out := append([]*Term{}, f...)
	for _, x := range l {
		found := false
		for i, y := range out {
			if x == y {
				out = append(out[:i:i], out[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			return nil, false
		}
	}
	return out, true
}

// solve finds the binders that satisfy all equations (each e == 0). It reports ok only when the
// solution, given the binder ranges, is unique; extra holds the remaining conditions.
func (in *Interp) solve(eqs []*Term, bs []binder, facts *Facts) (map[*Term]*Term, []*Term, bool) {
	sub := map[*Term]*Term{}
	unk := map[*Term]bool{}
	rng := map[*Term]*Term{}
	for _, b := range bs {
		rng[b.v] = b.n
		for _, e := range eqs {
			if e.syms[b.v] {
				unk[b.v] = true
			}
		}
	}
	if len(unk) == 0 {
		var extra []*Term
		for _, e := range eqs {
			if c := Decide(facts, Eq0(e)); c != tTrue {
				extra = append(extra, c)
			}
		}
		return sub, extra, true
	}
	orig := append([]*Term{}, eqs...)
	eqs = append([]*Term{}, eqs...)
	// a binder under a constant division is split into quotient and remainder
	type split struct {
		b, q, r, rest *Term
		c             int64
	}
	var splits []split
	var xf []*Term
	for _, b := range bs {
		if !unk[b.v] || b.n.unk {
			continue
		}
		var d *Term
		for _, e := range eqs {
			if d == nil {
				d = divAtom(e, b.v, unk)
			}
		}
		if d == nil {
			continue
		}
		cf, _ := constantT(d.args[1])
		c := int64(cf)
		rest := Sub(d.args[0], b.v)
		if !isConst(rest, 0) && !Prove(facts, Ge0(rest)) {
			continue
		}
		q, r := FreshSym("dq", SInt), FreshSym("dr", SInt)
		tm.nonneg[q], tm.nonneg[r] = true, true
		numer := Add(Scale(q, cf), r)
		whole := Sub(numer, rest)
		for i := range eqs {
			eqs[i] = subst1(replaceTerm(eqs[i], d, q), b.v, whole)
		}
		for k, n := range rng {
			rng[k] = subst1(replaceTerm(n, d, q), b.v, whole)
		}
		for i := range xf {
			xf[i] = subst1(replaceTerm(xf[i], d, q), b.v, whole)
		}
		xf = append(xf, Ge0(whole), Lt(whole, rng[b.v]), Lt(r, Int(c)))
		rng[q], rng[r] = DivInt(AddC(Add(rng[b.v], rest), c-1), Int(c)), Int(c)
		delete(unk, b.v)
		delete(rng, b.v)
		unk[q], unk[r] = true, true
		splits = append(splits, split{b.v, q, r, rest, c})
	}
	type uniq struct {
		v, cand *Term
		eq      *Term
	}
	var uniqs []uniq
	assign := func(v, val *Term) {
		delete(unk, v)
		one := map[*Term]*Term{v: val}
		for k, x := range sub {
			sub[k] = subst(x, one)
		}
		sub[v] = val
		for i := range eqs {
			eqs[i] = in.simpT(facts, subst(eqs[i], one))
		}
		for k, n := range rng {
			rng[k] = subst(n, one)
		}
		for i := range xf {
			xf[i] = subst(xf[i], one)
		}
	}
	for len(unk) > 0 {
		progress := false
		// division atoms: D(x) = T, used to eliminate D from the other equations
		for i, e := range eqs {
			var atom *Term
			sign, cnt := 0.0, 0
			for _, m := range polyOf(e) {
				dep := false
				for _, f := range m.f {
					for s := range f.syms {
						if unk[s] {
							dep = true
						}
					}
				}
				if dep {
					cnt++
					if len(m.f) == 1 && m.f[0].op == ODiv && (m.c == 1 || m.c == -1) {
						atom, sign = m.f[0], m.c
					}
				}
			}
			if cnt == 1 && atom != nil {
				val := Scale(Sub(e, Scale(atom, sign)), -sign)
				for j := range eqs {
					if j != i {
						n := replaceAtom(eqs[j], atom, val)
						if n != eqs[j] {
							eqs[j] = n
							progress = true
						}
					}
				}
			}
		}
		for i, e := range eqs {
			coef, rest, ok := linearIn(e, unk)
			if !ok || len(coef) == 0 {
				continue
			}
			if len(coef) == 1 {
				for v, c := range coef {
					if k, isC := constantT(c); isC && (k == 1 || k == -1) {
						assign(v, in.simpT(facts, Scale(rest, -k)))
						progress = true
					} else {
						if isC && k < 0 {
							c, rest = Scale(c, -1), Scale(rest, -1)
						}
						t := Scale(rest, -1)
						q, r, ok := polyDiv(t, c)
						if !(ok && isConst(r, 0)) {
							q = in.simpT(facts, DivInt(t, c))
						}
						if !isC && !Prove(facts, Ge0(AddC(c, -1))) {
							return nil, nil, false
						}
						assign(v, q)
						progress = true
					}
				}
				_ = i
				break
			}
			// several binders: mixed radix; the largest stride first
			var best *Term
			for v, c := range coef {
				if k, isC := constantT(c); isC && (k == 1 || k == -1) {
					continue
				}
				if best == nil || largerStride(in, facts, c, coef[best]) {
					best = v
				}
			}
			if best == nil {
				continue
			}
			c := coef[best]
			t := Scale(rest, -1)
			if k, isC := constantT(c); isC && k < 0 {
				c, t = Scale(c, -1), Scale(t, -1)
			}
			var cand *Term
			if q, r, ok := polyDiv(t, c); ok {
				if Prove(facts, And(Ge0(r), Lt(r, c))) {
					cand = q
				}
			}
			if cand == nil {
				cand = in.simpT(facts, DivInt(t, c))
			}
			uniqs = append(uniqs, uniq{best, cand, e})
			// uniqueness given the ranges of the other binders
			f := facts.with(xf...)
			for v := range coef {
				f = f.with(Ge0(v), Lt(v, rng[v]))
			}
			// c*v + S = c*q + r with 0 <= S, r < c forces v = q
			S := Int(0)
			for v, cv := range coef {
				if v != best {
					S = Add(S, Mul(cv, v))
				}
			}
			if k, isC := constantT(coef[best]); isC && k < 0 {
				S = Scale(S, -1)
			}
			if !(Prove(f, Ge0(S)) && Prove(f, Lt(S, c))) {
				f = f.with(Eq0(e))
				if !Prove(f, Le(best, cand)) || !Prove(f, Le(cand, best)) {
					return nil, nil, false
				}
			}
			assign(best, cand)
			progress = true
			break
		}
		if !progress {
			return nil, nil, false
		}
	}
	for i := len(splits) - 1; i >= 0; i-- {
		sp := splits[i]
		q, r := sub[sp.q], sub[sp.r]
		delete(sub, sp.q)
		delete(sub, sp.r)
		sub[sp.b] = in.simpT(facts, Sub(Add(Scale(q, float64(sp.c)), r), sp.rest))
	}
	var extra []*Term
	for _, e := range orig {
		r := subst(e, sub)
		if isConst(r, 0) {
			continue
		}
		r = in.simpT(facts, r)
		if isConst(r, 0) {
			continue
		}
		// ranges may be needed to verify the residual equation
		f := facts
		for v, val := range sub {
			for _, b := range bs {
				if b.v == v {
					f = f.with(Ge0(val), Lt(val, subst(b.n, sub)))
				}
			}
		}
		r2 := in.simpT(f, r)
		if isConst(r2, 0) || Prove(f, Eq0(r2)) {
			continue
		}
		extra = append(extra, Eq0(r))
	}
	return sub, extra, true
}

// divAtom finds (v + e)/c inside t, e free of unknowns.
func divAtom(t, v *Term, unk map[*Term]bool) *Term {
	var res *Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if res != nil || seen[t] || !t.syms[v] {
			return
		}
		seen[t] = true
		switch t.op {
		case ODiv:
			if c, ok := constantT(t.args[1]); ok && c > 1 {
				rest := Sub(t.args[0], v)
				free := true
				for s := range rest.syms {
					if unk[s] {
						free = false
					}
				}
				if free {
					res = t
					return
				}
			}
		case OSum, OFold, ORsel, OFirst, OExists:
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, f := range m.f {
				rec(f)
			}
		}
	}
	rec(t)
	return res
}

func largerStride(in *Interp, facts *Facts, a, b *Term) bool {
	ca, oka := constantT(a)
	cb, okb := constantT(b)
	if oka && okb {
		return ca > cb
	}
	if oka != okb {
		return okb // symbolic over constant
	}
	return Prove(facts, Lt(b, a))
}

func replaceAtom(t, atom, val *Term) *Term {
	r := Num(t.sort, 0)
	changed := false
	for _, m := range polyOf(t) {
		p := Num(t.sort, m.c)
		for _, f := range m.f {
			if f == atom {
				p = Mul(p, val)
				changed = true
			} else {
				p = Mul(p, f)
			}
		}
		r = Add(r, p)
	}
	if !changed {
		return t
	}
	return r
}

// ---- simplification under facts

type simpKey struct {
	f *Facts
	t *Term
}

func (in *Interp) simpV(f *Facts, v Value) Value {
	switch x := v.(type) {
	case *Term:
		return in.simpT(f, x)
	case SliceV:
		oi := make([]*Term, len(x.oidx))
		for i := range oi {
			oi[i] = in.simpT(f, x.oidx[i])
		}
		x.oidx = oi
		x.off, x.len, x.cap = in.simpT(f, x.off), in.simpT(f, x.len), in.simpT(f, x.cap)
		x.isn = Decide(f, x.isn)
		return x
	case CondV:
		c := Decide(f, x.c)
		if c == tTrue {
			return in.simpV(f, x.a)
		}
		if c == tFalse {
			return in.simpV(f, x.b)
		}
		return mkCond(c, in.simpV(f.with(c), x.a), in.simpV(f.with(Not(c)), x.b))
	case StructV:
		fs := make([]Value, len(x.f))
		for i := range fs {
			fs[i] = in.simpV(f, x.f[i])
		}
		return StructV{x.typ, fs}
	}
	return v
}

func (in *Interp) simpT(f *Facts, t *Term) *Term {
	if t.unk && t.op == OUnk || t.op == OSym || t.op == OTrue || t.op == OFalse {
		return t
	}
	if _, ok := constantT(t); ok {
		return t
	}
	if t.size > 6000 {
		return t
	}
	k := simpKey{f, t}
	if r, ok := in.simpMemo[k]; ok {
		return r
	}
	in.tick()
	if t.sort == SBool {
		n := Not(t)
		for g := f; g != nil; g = g.up {
			if g.t == t {
				return tTrue
			}
			if g.t == n {
				return tFalse
			}
		}
	}
	in.simpMemo[k] = t
	r := in.simp1(f, t)
	in.simpMemo[k] = r
	return r
}

func (in *Interp) simp1(f *Facts, t *Term) *Term {
	switch t.op {
	case OPoly:
		var acc []Mono
		for _, m := range t.monos {
			same := true
			fs := make([]*Term, len(m.f))
			for i, x := range m.f {
				fs[i] = in.simpT(f, x)
				if fs[i] != x {
					same = false
				}
			}
			if same {
				acc = append(acc, m)
				continue
			}
			p := Num(t.sort, m.c)
			for _, x := range fs {
				p = Mul(p, x)
			}
			acc = append(acc, polyOf(p)...)
		}
		return mkPoly(t.sort, acc)
	case OIte:
		c := Decide(f, in.simpT(f, t.args[0]))
		if c == tTrue {
			return in.simpT(f, t.args[1])
		}
		if c == tFalse {
			return in.simpT(f, t.args[2])
		}
		a, b := in.simpT(f.with(c), t.args[1]), in.simpT(f.with(Not(c)), t.args[2])
		return in.ite(f, c, a, b)
	case OMin:
		d := in.simpT(f, t.args[0])
		if Prove(f, Ge0(d)) {
			return Int(0)
		}
		if Prove(f, Ge0(Scale(d, -1))) {
			return d
		}
		return MinI(Int(0), d)
	case ODiv:
		a, b := in.simpT(f, t.args[0]), in.simpT(f, t.args[1])
		return in.simpDivF(f, a, b)
	case OSum:
		v := FreshSym("s", SInt)
		n := in.simpT(f, t.args[1])
		body := in.simpT(f.with(Ge0(v), Lt(v, n)), subst1(t.args[2], t.args[0], v))
		return Sum(v, n, body)
	case OFirst, OExists:
		v := FreshSym("s", SInt)
		n := in.simpT(f, t.args[1])
		body := subst1(t.args[2], t.args[0], v)
		f2 := f.with(Ge0(v), Lt(v, n))
		body = Decide(f2, in.simpT(f2, body))
		if t.op == OFirst {
			return First(v, n, body)
		}
		return Exists(v, n, body)
	case OAnd:
		g := f
		var xs []*Term
		for _, x := range t.args {
			y := in.simpT(g, x)
			xs = append(xs, y)
		}
		return And(xs...)
	case OGe0, OEq0, ONot:
		if r := Decide(f, t); r == tTrue || r == tFalse {
			return r
		}
		return rebuild(t, func(x *Term) *Term { return in.simpT(f, x) })
	case OFold, ORsel:
		return t
	}
	return rebuild(t, func(x *Term) *Term { return in.simpT(f, x) })
}

// simpDivF: (q*b + r)/b = q when 0 <= r < b and the numerator is not negative.
func (in *Interp) simpDivF(f *Facts, a, b *Term) *Term {
	t := DivInt(a, b)
	if t.op != ODiv {
		return t
	}
	if q, r, ok := polyDiv(a, b); ok {
		if Prove(f, And(Ge0(r), Lt(r, b))) && (isConst(r, 0) || Prove(f, Ge0(a)) || Prove(f, Ge0(q))) {
			return in.simpT(f, q)
		}
		// the remainder may lie in a neighbouring multiple
		if !isConst(q, 0) {
			if Prove(f, And(Ge0(Sub(r, b)), Lt(r, Scale(b, 2)))) && Prove(f, Ge0(a)) {
				return AddC(q, 1)
			}
			if Prove(f, And(Lt(r, Int(0)), Ge0(Add(r, b)))) && Prove(f, Ge0(a)) {
				return AddC(q, -1)
			}
			// keep the quotient outside: (q*b + r)/b = q + r/b for r >= 0 and q >= 0
			if Prove(f, Ge0(r)) && Prove(f, Ge0(q)) {
				return Add(q, DivInt(r, b))
			}
		}
	}
	return t
}

// ite builds a conditional and recognises minima and maxima.
func (in *Interp) ite(f *Facts, c, a, b *Term) *Term {
	t := Ite(c, a, b)
	if t.op != OIte || t.sort != SInt {
		return t
	}
	c, a, b = t.args[0], t.args[1], t.args[2]
	if a.unk || b.unk || c.unk {
		return t
	}
	fc, fn := f.with(c), f.with(Not(c))
	if Prove(fn, Eq(a, b)) {
		return a
	}
	if Prove(fc, Eq(a, b)) {
		return b
	}
	if Prove(fc, Le(a, b)) && Prove(fn, Le(b, a)) {
		return MinI(a, b)
	}
	if Prove(fc, Le(b, a)) && Prove(fn, Le(a, b)) {
		return MaxI(a, b)
	}
	return t
}

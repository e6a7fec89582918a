package main

import (
	"math"
	"sort"
	"time"
)

// A small linear-integer entailment prover (Fourier-Motzkin with integer tightening) over the
// monomials of the terms, with axioms for min, max, division, conditionals and products of
// nonnegative factors. It answers "proved" or "do not know".

// Facts is a persistent list of known-true boolean terms.
type Facts struct {
	up *Facts
	t  *Term
	n  int

	asked bool
	wit   []*Valuation // see witnesses
}

func (f *Facts) with(ts ...*Term) *Facts {
	for _, t := range ts {
		if t == tTrue {
			continue
		}
		if t.op == OAnd {
			f = f.with(t.args...)
			continue
		}
		n := 1
		if f != nil {
			n = f.n + 1
		}
		up := f
		k := proveKey{up, t}
		if g := tm.facts[k]; g != nil {
			f = g
			continue
		}
		f = &Facts{up: f, t: t, n: n}
		if t.op == OOr {
			if u := unitOr(up, t); u != t {
				f = f.with(u)
			}
		} else {
			for g := up; g != nil; g = g.up {
				if g.t.op == OOr {
					if u := orWithout(g.t, Not(t)); u != g.t {
						f = f.with(u)
					}
				}
			}
		}
		tm.facts[k] = f
	}
	return f
}

// orWithout removes a disjunct.
func orWithout(o, x *Term) *Term {
	for i, a := range o.args {
		if a == x {
			return Or(append(append([]*Term{}, o.args[:i]...), o.args[i+1:]...)...)
		}
	}
	return o
}

// unitOr removes the disjuncts whose negation is a fact.
func unitOr(f *Facts, o *Term) *Term {
	r := o
	for g := f; g != nil && r.op == OOr; g = g.up {
		r = orWithout(r, Not(g.t))
	}
	return r
}

func (f *Facts) all() []*Term {
	var out []*Term
	for g := f; g != nil; g = g.up {
		out = append(out, g.t)
	}
	return out
}

type proveKey struct {
	f *Facts
	t *Term
}

var proveMemo = map[proveKey]bool{}
var proveCalls, fmCalls int

// Decide returns tTrue or tFalse when the facts settle t, else t itself (possibly simplified).
func Decide(f *Facts, t *Term) *Term {
	if t == tTrue || t == tFalse || t.sort != SBool {
		return t
	}
	if t.op == OAnd || t.op == OOr {
		n := Not(t)
		for g := f; g != nil; g = g.up {
			if g.t == t {
				return tTrue
			}
			if g.t == n {
				return tFalse
			}
		}
	}
	switch t.op {
	case OAnd:
		var xs []*Term
		g := f
		for _, x := range t.args {
			y := Decide(g, x)
			xs = append(xs, y)
			if y == tFalse {
				return tFalse
			}
			g = g.with(y)
		}
		return And(xs...)
	case OOr:
		var xs []*Term
		g := f
		for _, x := range t.args {
			y := Decide(g, x)
			xs = append(xs, y)
			if y == tTrue {
				return tTrue
			}
			g = g.with(Not(y))
		}
		return Or(xs...)
	}
	if Prove(f, t) {
		return tTrue
	}
	if Prove(f, Not(t)) {
		return tFalse
	}
	return t
}

func Prove(f *Facts, goal *Term) bool {
	if goal == tTrue {
		return true
	}
	if goal == tFalse {
		return proveContra(f)
	}
	k := proveKey{f, goal}
	if r, ok := proveMemo[k]; ok {
		return r
	}
	proveMemo[k] = false
	proveCalls++
	if f.refuted(goal) {
		return false
	}
	r := prove1(f, goal)
	proveMemo[k] = r
	return r
}

func proveContra(f *Facts) bool {
	k := proveKey{f, tFalse}
	if r, ok := proveMemo[k]; ok {
		return r
	}
	proveMemo[k] = false
	if len(f.witnesses()) > 0 {
		return false
	}
	r := refute(f.all(), nil, 2)
	proveMemo[k] = r
	return r
}

func prove1(f *Facts, goal *Term) bool {
	for g := f; g != nil; g = g.up {
		if g.t == goal || g.t == tFalse {
			return true
		}
	}
	switch goal.op {
	case OAnd:
		for _, x := range goal.args {
			if !Prove(f, x) {
				return false
			}
		}
		return true
	case OOr:
		for _, x := range goal.args {
			if Prove(f, x) {
				return true
			}
		}
		for i, x := range goal.args {
			if x.op != OGe0 && x.op != OEq0 {
				continue
			}
			g := f
			for j, y := range goal.args {
				if j != i {
					g = g.with(Not(y))
				}
			}
			if g != f && Prove(g, x) {
				return true
			}
		}
		return false
	case OGe0:
		return refute(f.all(), []*Term{Not(goal)}, 5) || proveProduct(f, goal.args[0])
	case OEq0:
		p := goal.args[0]
		return refute(f.all(), []*Term{Ge0(AddC(p, -1))}, 4) && refute(f.all(), []*Term{Ge0(AddC(Scale(p, -1), -1))}, 4)
	case ONot:
		if goal.args[0].op == OEq0 {
			return refute(f.all(), []*Term{goal.args[0]}, 4)
		}
		if goal.args[0].op == OExists {
			// not exists b<n: c(b): prove not c for an arbitrary b in range
			e := goal.args[0]
			v := FreshSym("w", SInt)
			body := subst1(e.args[2], e.args[0], v)
			return Prove(f.with(Ge0(v), Lt(v, e.args[1]), body), tFalse)
		}
	case OExists:
	}
	return refute(f.all(), []*Term{Not(goal)}, 2)
}

var productDepth int

// proveProduct shows a polynomial nonnegative by writing it as P*Q + S with nonnegative factors:
// P,Q,S >= 0, or P >= 1, Q >= 0 and Q + S >= 0, or the same with P and Q exchanged.
func proveProduct(f *Facts, g *Term) bool {
	if productDepth >= 3 || len(polyOf(g)) > 16 {
		return false
	}
	seen := map[*Term]bool{}
	var cand []*Term
	for _, m := range polyOf(g) {
		if len(m.f) < 2 {
			continue
		}
		for _, a := range m.f {
			if !seen[a] {
				seen[a] = true
				cand = append(cand, a)
			}
		}
	}
	if len(cand) == 0 || len(cand) > 8 {
		return false
	}
	productDepth++
	defer func() { productDepth-- }()
	ge := func(t *Term) bool { return Prove(f, Ge0(t)) }
	for _, a := range cand {
		P, R := Int(0), Int(0)
		for _, m := range polyOf(g) {
			rem, has := removeFactors(m.f, []*Term{a})
			if !has {
				R = Add(R, mkPoly(SInt, []Mono{m}))
				continue
			}
			P = Add(P, mkPoly(SInt, []Mono{{m.c, rem}}))
		}
		if _, isC := constantT(P); isC {
			continue
		}
		Q, S := a, R
		if q, r, ok := polyDiv(R, P); ok {
			Q, S = Add(a, q), r
		}
		if !ge(P) || !ge(Q) {
			continue
		}
		if ge(S) || ge(AddC(P, -1)) && ge(Add(Q, S)) || ge(AddC(Q, -1)) && ge(Add(P, S)) {
			return true
		}
	}
	return false
}

// lin is a linear constraint: sum c_i x_(v_i) + k >= 0 over monomial indices, in increasing order.
type lin struct {
	v []int32
	c []float64
	k float64
}

// proveDeadline: when the instance under analysis has to be given up.
var proveDeadline time.Time

type fmProb struct {
	one  map[*Term]int32
	many map[string]int32
	n    int32
}

func (p *fmProb) v(f []*Term) int32 {
	if len(f) == 1 {
		if i, ok := p.one[f[0]]; ok {
			return i
		}
		i := p.n
		p.n++
		p.one[f[0]] = i
		return i
	}
	k := monoKey(f)
	if i, ok := p.many[k]; ok {
		return i
	}
	i := p.n
	p.n++
	p.many[k] = i
	return i
}

func newFm() *fmProb { return &fmProb{one: map[*Term]int32{}, many: map[string]int32{}} }

func (p *fmProb) lin(t *Term) lin {
	ms := polyOf(t)
	l := lin{v: make([]int32, 0, len(ms)), c: make([]float64, 0, len(ms))}
	for _, m := range ms {
		if len(m.f) == 0 {
			l.k += m.c
			continue
		}
		x, c := p.v(m.f), m.c
		i := len(l.v)
		for i > 0 && l.v[i-1] > x {
			i--
		}
		if i > 0 && l.v[i-1] == x {
			l.c[i-1] += c
			continue
		}
		l.v = append(l.v, 0)
		l.c = append(l.c, 0)
		copy(l.v[i+1:], l.v[i:])
		copy(l.c[i+1:], l.c[i:])
		l.v[i], l.c[i] = x, c
	}
	return l
}

// refute reports whether facts together with extra are contradictory. split bounds the case splits.
func refute(facts []*Term, extra []*Term, split int) bool {
	fmCalls++
	// boolean-level contradiction
	set := map[*Term]bool{}
	var ge []*Term // p with p >= 0
	var ne []*Term // p with p != 0
	var ors []*Term
	var addB func(t *Term, rel bool) bool
	addB = func(t *Term, rel bool) bool {
		if t == tFalse {
			return true
		}
		if set[t] {
			return false
		}
		set[t] = true
		if set[Not(t)] {
			return true
		}
		switch t.op {
		case OAnd:
			for _, x := range t.args {
				if addB(x, rel) {
					return true
				}
			}
		case OGe0:
			ge = append(ge, t.args[0])
		case OEq0:
			ge = append(ge, t.args[0], Scale(t.args[0], -1))
		case ONot:
			if t.args[0].op == OEq0 {
				ne = append(ne, t.args[0].args[0])
			}
		case OOr:
			ors = append(ors, t)
		}
		return false
	}
	for _, t := range extra {
		if addB(t, true) {
			return true
		}
	}
	nGoal := len(ge)
	for _, t := range facts {
		if addB(t, false) {
			return true
		}
	}
	// relevance: constraints connected to the goal's monomials
	if len(extra) > 0 && nGoal == 0 && len(ors) == 0 && len(ne) == 0 {
		return false
	}
	goalSyms := map[*Term]bool{}
	atoms := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		for _, m := range polyOf(t) {
			for _, f := range m.f {
				if !atoms[f] {
					atoms[f] = true
					for _, a := range f.args {
						if a.sort == SInt {
							mark(a)
						}
					}
				}
			}
		}
	}
	var use []*Term
	if len(extra) > 0 {
		for _, p := range ge[:nGoal] {
			mark(p)
			use = append(use, p)
		}
		if nGoal == 0 {
			for _, e := range extra {
				if e.op == OOr {
					for _, x := range e.args {
						for _, a := range x.args {
							if a.sort == SInt {
								mark(a)
							}
						}
					}
				}
				if e.op == ONot {
					for _, a := range e.args[0].args {
						if a.sort == SInt {
							mark(a)
						}
					}
				}
			}
		}
		done := map[int]bool{}
		for round := 0; round < 3; round++ {
			prev := map[*Term]bool{}
			for a := range atoms {
				prev[a] = true
			}
			for i := nGoal; i < len(ge); i++ {
				if done[i] {
					continue
				}
				touch := false
				for _, m := range polyOf(ge[i]) {
					for _, f := range m.f {
						if prev[f] {
							touch = true
						}
					}
				}
				if touch {
					done[i] = true
					use = append(use, ge[i])
					mark(ge[i])
				}
			}
		}
	} else {
		use = ge
		for _, p := range ge {
			mark(p)
		}
	}
	_ = goalSyms
	if len(use) > 60 {
		use = use[:60]
	}
	return refuteLin(use, ne, ors, atoms, split)
}

func refuteLin(use []*Term, ne, ors []*Term, atoms map[*Term]bool, split int) bool {
	if !proveDeadline.IsZero() && time.Now().After(proveDeadline) {
		panic(budgetErr{})
	}
	p := newFm()
	var axioms []*Term
	add := func(t *Term) { axioms = append(axioms, t) }
	var minmax []*Term
	var as []*Term
	for a := range atoms {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		if atomNonneg(a) {
			add(a)
		}
		switch a.op {
		case OMin:
			add(Scale(a, -1))
			add(Sub(a.args[0], a))
			minmax = append(minmax, a)
		case OIte:
			minmax = append(minmax, a)
		case OApp:
			switch a.name {
			case "pver":
				n := a.args[len(a.args)-2]
				if knownNonneg(use, AddC(n, -1)) {
					add(a)
					add(AddC(Sub(n, a), -1))
				}
			case "wildlo":
				add(Sub(a, a.args[1]))
			case "wildr":
				if knownNonneg(use, Sub(a.args[2], a.args[1])) {
					add(Sub(a, a.args[1]))
					add(Sub(a.args[2], a))
				}
			}
		case OFirst:
			add(a)
			add(Sub(MaxI(Int(0), a.args[1]), a))
		case ODiv:
			if c, ok := constantT(a.args[1]); ok && c > 0 {
				n := a.args[0]
				d := Sub(n, Scale(a, c))
				// c*a + (0..c-1) = n when n >= 0; in general |n - c*a| < c
				if knownNonneg(use, n) {
					add(d)
					add(AddC(Scale(d, -1), int64(c)-1))
					add(a)
				} else {
					add(AddC(d, int64(c)-1))
					add(AddC(Scale(d, -1), int64(c)-1))
				}
			} else if c := a.args[1]; !ok && knownNonneg(use, AddC(c, -1)) && knownNonneg(use, a.args[0]) {
				d := Sub(a.args[0], Mul(a, c))
				add(d)
				add(AddC(Sub(c, d), -1))
				add(a)
			}
		}
	}
	// products of nonnegative factors
	prod := nonlinear(use, axioms)
	all := append(append([]*Term{}, use...), axioms...)
	if len(prod) > 0 {
		all = append(all, productAxioms(all, prod)...)
	}
	var cons []lin
	for _, t := range all {
		cons = append(cons, p.lin(t))
	}
	if fm(cons) {
		return true
	}
	if split <= 0 {
		return false
	}
	// case splits
	for _, x := range ne {
		touch := false
		for _, m := range polyOf(x) {
			for _, f := range m.f {
				if atoms[f] {
					touch = true
				}
			}
		}
		if !touch {
			continue
		}
		rest := []*Term{}
		for _, y := range ne {
			if y != x {
				rest = append(rest, y)
			}
		}
		at := withAtoms(atoms, x)
		return refuteLin(append(append([]*Term{}, use...), AddC(x, -1)), rest, ors, at, split-1) &&
			refuteLin(append(append([]*Term{}, use...), AddC(Scale(x, -1), -1)), rest, ors, at, split-1)
	}
	for _, a := range minmax {
		var c1, c2 []*Term // constraints of each case
		ne1, ne2 := ne, ne
		switch a.op {
		case OMin:
			d := a.args[0]
			c1 = []*Term{a, d}
			c2 = []*Term{Sub(a, d), Scale(d, -1)}
		case OIte:
			e1, e2 := Sub(a, a.args[1]), Sub(a, a.args[2])
			c1 = []*Term{e1, Scale(e1, -1)}
			c2 = []*Term{e2, Scale(e2, -1)}
			for _, x := range conjuncts(a.args[0]) {
				if x.op == OGe0 {
					c1 = append(c1, x.args[0])
				} else if x.op == OEq0 {
					c1 = append(c1, x.args[0], Scale(x.args[0], -1))
				} else if x.op == ONot && x.args[0].op == OEq0 {
					ne1 = append(append([]*Term{}, ne1...), x.args[0].args[0])
				}
			}
			for _, x := range conjuncts(Not(a.args[0])) {
				if x.op == OGe0 {
					c2 = append(c2, x.args[0])
				} else if x.op == OEq0 {
					c2 = append(c2, x.args[0], Scale(x.args[0], -1))
				} else if x.op == ONot && x.args[0].op == OEq0 {
					ne2 = append(append([]*Term{}, ne2...), x.args[0].args[0])
				}
			}
		}
		at := map[*Term]bool{}
		for x := range atoms {
			if x != a {
				at[x] = true
			}
		}
		for _, x := range append(append([]*Term{}, c1...), c2...) {
			for _, m := range polyOf(x) {
				for _, f := range m.f {
					if f != a {
						at[f] = true
					}
				}
			}
		}
		return refuteLin(append(append([]*Term{}, use...), c1...), ne1, ors, at, split-1) &&
			refuteLin(append(append([]*Term{}, use...), c2...), ne2, ors, at, split-1)
	}
	for i, o := range ors {
		touch := len(use) == 0
		for _, x := range o.args {
			for s := range x.syms {
				if atoms[s] {
					touch = true
				}
			}
		}
		if !touch {
			continue
		}
		rest := append(append([]*Term{}, ors[:i]...), ors[i+1:]...)
		ok := true
		for _, x := range o.args {
			u := append([]*Term{}, use...)
			n2 := ne
			at := map[*Term]bool{}
			for y := range atoms {
				at[y] = true
			}
			usable := false
			for _, y := range conjuncts(x) {
				switch {
				case y.op == OGe0:
					u = append(u, y.args[0])
					usable = true
				case y.op == OEq0:
					u = append(u, y.args[0], Scale(y.args[0], -1))
					usable = true
				case y.op == ONot && y.args[0].op == OEq0:
					n2 = append(append([]*Term{}, n2...), y.args[0].args[0])
					usable = true
				}
				for _, a := range y.args {
					if a.sort == SInt {
						for _, m := range polyOf(a) {
							for _, f := range m.f {
								at[f] = true
							}
						}
					}
				}
			}
			if !usable || !refuteLin(u, n2, rest, at, split-1) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// withAtoms adds the atoms of t, and those inside them.
func withAtoms(atoms map[*Term]bool, t *Term) map[*Term]bool {
	at := map[*Term]bool{}
	for a := range atoms {
		at[a] = true
	}
	var mark func(t *Term)
	mark = func(t *Term) {
		for _, m := range polyOf(t) {
			for _, f := range m.f {
				if !at[f] {
					at[f] = true
					for _, a := range f.args {
						if a.sort == SInt {
							mark(a)
						}
					}
				}
			}
		}
	}
	mark(t)
	return at
}

// knownNonneg: p >= 0 follows from the constraints without case splits.
func knownNonneg(use []*Term, n *Term) bool {
	ok := true
	for _, m := range polyOf(n) {
		if m.c < 0 {
			ok = false
		}
		for _, f := range m.f {
			if !atomNonneg(f) {
				ok = false
			}
		}
	}
	if ok {
		return true
	}
	p := newFm()
	var cons []lin
	cons = append(cons, p.lin(AddC(Scale(n, -1), -1)))
	atoms := map[*Term]bool{}
	divAx := func(f *Term) {
		if f.op != ODiv {
			return
		}
		if c, ok := constantT(f.args[1]); ok && c > 0 && synNonneg(f.args[0]) {
			d := Sub(f.args[0], Scale(f, c))
			cons = append(cons, p.lin(d), p.lin(AddC(Scale(d, -1), int64(c)-1)))
			for _, m := range polyOf(f.args[0]) {
				for _, g := range m.f {
					atoms[g] = true
				}
			}
		}
	}
	for _, m := range polyOf(n) {
		for _, f := range m.f {
			atoms[f] = true
			if atomNonneg(f) {
				cons = append(cons, p.lin(f))
			}
			divAx(f)
		}
	}
	for round := 0; round < 2; round++ {
		for _, u := range use {
			touch := false
			for _, m := range polyOf(u) {
				for _, f := range m.f {
					if atoms[f] {
						touch = true
					}
				}
			}
			if touch {
				cons = append(cons, p.lin(u))
				for _, m := range polyOf(u) {
					for _, f := range m.f {
						if atomNonneg(f) && !atoms[f] {
							cons = append(cons, p.lin(f))
						}
						atoms[f] = true
					}
				}
			}
		}
	}
	return fm(cons)
}

func nonlinear(lists ...[]*Term) [][]*Term {
	seen := map[string]bool{}
	var out [][]*Term
	for _, l := range lists {
		for _, t := range l {
			for _, m := range polyOf(t) {
				if len(m.f) >= 2 {
					k := monoKey(m.f)
					if !seen[k] {
						seen[k] = true
						out = append(out, m.f)
					}
				}
			}
		}
	}
	return out
}

// productAxioms multiplies constraints by nonnegative factors when the product's leading
// monomials occur in the problem.
func productAxioms(all []*Term, prod [][]*Term) []*Term {
	want := map[string]bool{}
	factors := map[*Term]bool{}
	for _, f := range prod {
		want[monoKey(f)] = true
		for _, x := range f {
			factors[x] = true
		}
	}
	var ys []*Term
	for f := range factors {
		ys = append(ys, f)
	}
	sort.Slice(ys, func(i, j int) bool { return ys[i].id < ys[j].id })
	var out []*Term
	seen := map[*Term]bool{}
	for _, y := range ys {
		nonneg := atomNonneg(y) || knownNonneg(all, y)
		if !nonneg {
			continue
		}
		for _, t := range all {
			if len(polyOf(t)) > 5 {
				continue
			}
			hit := false
			for _, m := range polyOf(t) {
				if len(m.f) == 1 && want[monoKey(mergeFactors(m.f, []*Term{y}))] {
					hit = true
				}
			}
			if !hit {
				continue
			}
			q := Mul(t, y)
			if !seen[q] {
				seen[q] = true
				out = append(out, q)
			}
			if len(out) > 60 {
				return out
			}
		}
	}
	return out
}

// fm decides rational infeasibility (with integer tightening): equations with a unit coefficient
// are substituted away, the rest is Fourier-Motzkin elimination.
func fm(cons []lin) bool {
	t := &fmTab{}
	t.reset(len(cons))
	for _, l := range cons {
		if t.push(l, false) {
			return true
		}
	}
	for steps := 0; steps < 200; steps++ {
		if len(t.rows) == 0 {
			return false
		}
		if e, i := t.equation(); e != nil {
			// substitute x_v = -(rest)/c, c = +-1
			v, c := e.v[i], e.c[i]
			old := t.rows
			neg := e.scaled(-1)
			t = &fmTab{va: t.va, ca: t.ca}
			t.reset(len(old))
			for _, l := range old {
				a := l.coef(v)
				if a == 0 {
					if t.push(l, false) {
						return true
					}
					continue
				}
				// l - (a/c) e
				var n lin
				if a*c > 0 {
					n = t.combine(l, neg, 1, a/c, v)
				} else {
					n = t.combine(l, *e, 1, -a/c, v)
				}
				if math.Abs(n.k) > 1e12 {
					continue
				}
				if t.push(n, true) {
					return true
				}
			}
			continue
		}
		// a variable whose elimination costs least
		var nv int32
		for _, l := range t.rows {
			if k := l.v[len(l.v)-1] + 1; k > nv {
				nv = k
			}
		}
		pos, neg := make([]int, nv), make([]int, nv)
		for _, l := range t.rows {
			for i, v := range l.v {
				if l.c[i] > 0 {
					pos[v]++
				} else {
					neg[v]++
				}
			}
		}
		bestV, bestCost := int32(-1), math.MaxInt32
		for v := range pos {
			if pos[v]+neg[v] == 0 {
				continue
			}
			if cost := pos[v]*neg[v] - pos[v] - neg[v]; cost < bestCost {
				bestCost, bestV = cost, int32(v)
			}
		}
		if bestV < 0 {
			return false
		}
		var P, N, rest []lin
		for _, l := range t.rows {
			switch c := l.coef(bestV); {
			case c > 0:
				P = append(P, l)
			case c < 0:
				N = append(N, l)
			default:
				rest = append(rest, l)
			}
		}
		if len(P)*len(N) > 600 || len(rest)+len(P)*len(N) > 900 {
			return false
		}
		t = &fmTab{va: t.va, ca: t.ca}
		t.reset(len(rest) + len(P)*len(N))
		for _, l := range rest {
			if t.push(l, false) {
				return true
			}
		}
		for _, a := range P {
			for _, b := range N {
				n := t.combine(a, b, -b.coef(bestV), a.coef(bestV), bestV)
				if math.Abs(n.k) > 1e12 {
					continue
				}
				if t.push(n, true) {
					return true
				}
			}
		}
	}
	return false
}

func (l lin) coef(v int32) float64 {
	for i, w := range l.v {
		if w == v {
			return l.c[i]
		}
	}
	return 0
}

func (l lin) scaled(k float64) lin {
	c := make([]float64, len(l.c))
	for i := range c {
		c[i] = k * l.c[i]
	}
	return lin{v: l.v, c: c, k: k * l.k}
}

// combine is ka*a + kb*b without the variable x, which cancels.
func (t *fmTab) combine(a, b lin, ka, kb float64, x int32) lin {
	w := len(a.v) + len(b.v)
	if len(t.va)+w > cap(t.va) {
		t.va = make([]int32, 0, 2048+w)
		t.ca = make([]float64, 0, 2048+w)
	}
	o := len(t.va)
	nv, nc := t.va[o:o], t.ca[o:o]
	i, j := 0, 0
	for i < len(a.v) || j < len(b.v) {
		var v int32
		var c float64
		switch {
		case j >= len(b.v) || i < len(a.v) && a.v[i] < b.v[j]:
			v, c = a.v[i], ka*a.c[i]
			i++
		case i >= len(a.v) || b.v[j] < a.v[i]:
			v, c = b.v[j], kb*b.c[j]
			j++
		default:
			v, c = a.v[i], ka*a.c[i]+kb*b.c[j]
			i++
			j++
		}
		if v != x && c != 0 {
			nv = append(nv, v)
			nc = append(nc, c)
		}
	}
	return lin{v: nv, c: nc, k: ka*a.k + kb*b.k}
}

// keep makes the row built last permanent.
func (t *fmTab) keep(l lin) {
	t.va = t.va[:len(t.va)+len(l.v)]
	t.ca = t.ca[:len(t.ca)+len(l.v)]
}

// fmTab is a set of constraints, the tightest of those with the same left hand side.
type fmTab struct {
	rows []lin
	hs   []uint64
	slot []int32 // open addressing: row + 1
	va   []int32
	ca   []float64
}

func (t *fmTab) reset(n int) {
	size := 16
	for size < 3*n {
		size *= 2
	}
	t.slot = make([]int32, size)
	t.rows = make([]lin, 0, n)
	t.hs = make([]uint64, 0, n)
}

func (l lin) hash(sign float64) uint64 {
	h := uint64(1469598103934665603)
	for i, v := range l.v {
		h = (h ^ uint64(v)) * 1099511628211
		h = (h ^ uint64(int64(sign*l.c[i]))) * 1099511628211
		h ^= h >> 29
	}
	return h
}

func (t *fmTab) find(l lin, sign float64) (int, uint64) {
	h := l.hash(sign)
	mask := uint64(len(t.slot) - 1)
	for p := h & mask; t.slot[p] != 0; p = (p + 1) & mask {
		i := int(t.slot[p] - 1)
		if t.hs[i] != h {
			continue
		}
		r := &t.rows[i]
		if len(r.v) != len(l.v) {
			continue
		}
		same := true
		for j := range r.v {
			if r.v[j] != l.v[j] || r.c[j] != sign*l.c[j] {
				same = false
				break
			}
		}
		if same {
			return i, h
		}
	}
	return -1, h
}

func gcdI(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// push adds a constraint; it reports a contradiction. Rows built by combine are kept if they are new.
func (t *fmTab) push(l lin, built bool) bool {
	if len(l.v) == 0 {
		return l.k < 0
	}
	g := int64(0)
	for _, c := range l.c {
		a := int64(c)
		if a < 0 {
			a = -a
		}
		g = gcdI(a, g)
		if g == 1 {
			break
		}
	}
	if g > 1 {
		d := float64(g)
		if built {
			for i := range l.c {
				l.c[i] /= d
			}
		} else {
			c := make([]float64, len(l.c))
			for i := range c {
				c[i] = l.c[i] / d
			}
			l.c = c
		}
		l.k = math.Floor(l.k / d)
	}
	if i, _ := t.find(l, -1); i >= 0 && t.rows[i].k+l.k < 0 {
		return true
	}
	i, h := t.find(l, 1)
	if i >= 0 {
		if l.k < t.rows[i].k {
			t.rows[i].k = l.k
		}
		return false
	}
	if 2*len(t.rows) >= len(t.slot) {
		old := t.hs
		t.slot = make([]int32, 2*len(t.slot))
		for i, h := range old {
			t.place(h, i)
		}
	}
	t.place(h, len(t.rows))
	t.rows = append(t.rows, l)
	t.hs = append(t.hs, h)
	if built {
		t.keep(l)
	}
	return false
}

func (t *fmTab) place(h uint64, i int) {
	mask := uint64(len(t.slot) - 1)
	p := h & mask
	for t.slot[p] != 0 {
		p = (p + 1) & mask
	}
	t.slot[p] = int32(i + 1)
}

// equation is a constraint whose negation is there too, and a variable with coefficient +-1 in it.
func (t *fmTab) equation() (*lin, int) {
	for i := range t.rows {
		l := &t.rows[i]
		j, _ := t.find(*l, -1)
		if j < i || t.rows[j].k+l.k != 0 {
			continue
		}
		for x, c := range l.c {
			if c == 1 || c == -1 {
				return l, x
			}
		}
	}
	return nil, 0
}

func appendInt(b []byte, n int) []byte {
	if n < 0 {
		b = append(b, '-')
		n = -n
	}
	if n >= 10 {
		b = appendInt(b, n/10)
	}
	return append(b, byte('0'+n%10))
}

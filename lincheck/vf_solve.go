package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"
)

// Substitution invariants. A loop solves a triangular system in place when every pass settles
// the entry at its counter and removes its share from the entries still to come (or takes the
// shares of the settled ones away from its own entry). Then the entries r the loop ends with and the entries
// s it starts with satisfy, for every place t,
//
//	s(t) = D(t) r(t) + sum over the places j settled before t of M(t, j) r(j)
//
// with D and M read off the closed form of one pass over an arbitrary array. The invariant (the
// settled entries do not change any more, the others hold s minus the shares of the settled ones)
// is checked on that closed form; no pass is run.

type solveInfo struct {
	key    string
	table  bool
	broken string
	pre    func(at []*Term) *Term                           // the entry before the loop
	back   func(at []*Term, r func(at []*Term) *Term) *Term // the same, by way of the entries after it
}

// rewriteApps replaces applications, innermost first.
func rewriteApps(t *Term, f func(a *Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := rebuild(t, rec)
		if r.op == OApp {
			if n := f(r); n != nil {
				r = n
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (in *Interp) solves(key string, k *Term, base, head, end *State, counters map[*Term]float64, cond, rangeN *Term, objs map[*VObj]bool) map[*VObj]*solveInfo {
	out := map[*VObj]*solveInfo{}
	if end.dead() {
		return out
	}
	for _, o := range sortedObjs(objs) {
		hc, ec := head.mem[o], end.mem[o]
		if s, ok := sortOf(o.typ); !ok || s != SFloat || hc == nil || ec == nil || hc.ver == "" || hc.havoc || ec.havoc || hc.ver != ec.ver || len(ec.regs) == 0 {
			continue
		}
		type counter struct {
			c *Term
			g float64
		}
		var cs []counter
		for _, d := range []int64{0, -1, 1} {
			for _, c := range sortedCounters(counters) {
				cs = append(cs, counter{AddC(c, d), counters[c]})
			}
		}
		for _, p := range cs {
			c, g := p.c, p.g
			if info, why := in.solvedBy(key, k, base, head, end, c, g, cond, rangeN, o); info != nil {
				out[o] = info
				if in.trace {
					fmt.Println("SOLVED", key[strings.LastIndex(key, "/")+1:])
				}
				break
			} else if in.trace {
				fmt.Println("SOLVE", key[strings.LastIndex(key, "/")+1:], c, why)
			}
		}
	}
	return out
}

func sortedCounters(m map[*Term]float64) (cs []*Term) {
	for c := range m {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	return
}

func (in *Interp) solvedBy(key string, k *Term, base, head, end *State, c *Term, g float64, cond, rangeN *Term, o *VObj) (*solveInfo, string) {
	in.permFresh++
	loops := in.loops
	in.loops = nil
	defer func() { in.loops = loops }()
	n := lengthOf(base, o)
	table := n == nil
	x := Sym(fmt.Sprintf("sol#%d", in.permFresh), SInt)
	col := Sym(fmt.Sprintf("sol#%d'", in.permFresh), SInt)
	tm.nonneg[x], tm.nonneg[col] = true, true
	c0 := subst(c, map[*Term]*Term{k: Int(0)})
	read := func(ct *Content, f *Facts) *Term {
		var t *Term
		var ok bool
		if table {
			t, ok = in.readFrom(ct, len(ct.regs)-1, o, []*Term{x}, col, f, 0).(*Term)
		} else {
			t, ok = in.readFrom(ct, len(ct.regs)-1, o, nil, x, f, 0).(*Term)
		}
		if !ok || t.unk {
			return nil
		}
		return in.simpT(f, t)
	}
	fx := end.facts.with(Ge0(x))
	fb := base.facts.with(Ge0(x))
	if n != nil {
		fx, fb = fx.with(Lt(x, n)), fb.with(Lt(x, n))
	}
	after, before, start := read(end.mem[o], fx), read(head.mem[o], fx), read(base.mem[o], fb)
	if after == nil || before == nil || start == nil || before.op != OApp || before.name != "ver" {
		return nil, fmt.Sprintf("a pass is not known: %v; %v; %v", after != nil, before, start)
	}
	hv := before.args[0]
	// the place an application of the array is about
	placeOf := func(a *Term) *Term {
		if table {
			return a.args[len(a.args)-2]
		}
		return a.args[len(a.args)-1]
	}
	isRead := func(a *Term) bool { return a.op == OApp && a.name == "ver" && a.args[0] == hv }
	// B(t, j, q): what pass q gives to the entry t of the array that holds 1 at place j and 0
	// elsewhere
	kOf := func(q *Term) *Term { return Scale(Sub(q, c0), g) }
	unit := func(t, j, q *Term) *Term {
		e := subst(after, map[*Term]*Term{x: t, k: kOf(q)})
		return rewriteApps(e, func(a *Term) *Term {
			if isRead(a) {
				return Ite(Eq(placeOf(a), j), Num(SFloat, 1), Num(SFloat, 0))
			}
			return nil
		})
	}
	visited := func(q *Term) *Term {
		v := Ge0(kOf(q))
		if rangeN != nil {
			v = And(v, Lt(kOf(q), rangeN))
		}
		if cond != nil {
			v = And(v, subst(cond, map[*Term]*Term{k: kOf(q)}))
		}
		return v
	}
	if cond != nil && (cond.unk || someTerm(func(t *Term) bool { return t.op == OApp || t.sort == SFloat }, cond)) {
		return nil, "where the loop ends is not known"
	}
	if rangeN != nil && rangeN.unk {
		return nil, "where the loop ends is not known"
	}
	if cond != nil && rangeN == nil && Decide(base.facts.with(Ge0(k), cond), subst(cond, map[*Term]*Term{k: AddC(k, -1)})) != tTrue {
		return nil, "the loop may end in between"
	}
	// is the pass of one of the two kinds?
	var assume []*Term
	for _, a := range end.facts.all() {
		if !a.unk && !someTerm(func(t *Term) bool { return t.op == OApp || t.sort == SFloat }, a) {
			assume = append(assume, a)
		}
	}
	for i, j := 0, len(assume)-1; i < j; i, j = i+1, j-1 {
		assume[i], assume[j] = assume[j], assume[i]
	}
	assume = append(assume, Ge0(c), Le(c, Int(6)), Ge0(c0), Le(c0, Int(6)), Ge0(col), Le(col, Int(3)))
	lim := []*Term{c, c0}
	if n != nil {
		assume = append(assume, Le(n, Int(6)))
		lim = append(lim, n)
	}
	t, j := Sym(fmt.Sprintf("sol#%dt", in.permFresh), SInt), Sym(fmt.Sprintf("sol#%dj", in.permFresh), SInt)
	q := Sym(fmt.Sprintf("sol#%dq", in.permFresh), SInt)
	for _, s := range []*Term{t, j, q} {
		tm.nonneg[s] = true
	}
	B := unit(t, j, q)
	seen, right, left := 0, true, true
	used, broken := 0, ""
	until := time.Now().Add(4 * time.Second)
	for round := 0; round < 5 && time.Now().Before(until); round++ {
		for _, v := range samples(append(append([]*Term{}, assume...), visited(c)), append(lim, col), 16, 17+int64(round), round%5, until) {
			cc, ok := v.Eval(c)
			if !ok {
				continue
			}
			size := int64(6)
			if n != nil {
				nn, ok := v.Eval(n)
				if !ok {
					continue
				}
				size = nn.i
			}
			if z, ok := v.Eval(c0); !ok || z.i >= size && n != nil {
				continue
			} else if g < 0 && n == nil {
				size = z.i + 1
			}
			if cc.i >= size {
				continue
			}
			good := true
			var E [8][8]float64
			for a := int64(0); a < size && good; a++ {
				sum := 0.0
				for b := int64(0); b < size && good; b++ {
					e, ok := v.again(nil, map[*Term]int64{t: a, j: b, q: cc.i}).Eval(B)
					good = good && ok && !math.IsNaN(e.f) && !math.IsInf(e.f, 0)
					E[a][b] = e.f
					y, ok2 := v.again(nil, map[*Term]int64{x: b}).Eval(before)
					good = good && ok2
					sum += e.f * y.f
				}
				z, ok := v.again(nil, map[*Term]int64{x: a}).Eval(after)
				if good && ok && math.Abs(z.f-sum) > 1e-9*(1+math.Abs(sum)) {
					return nil, "a pass is not a linear one"
				}
				good = good && ok
			}
			if !good {
				continue
			}
			seen++
			// tiny entries count as any others
			ord := map[*Term]int64{hv: cc.i}
			for a := int64(0); a < size && broken == ""; a++ {
				sum, scale := 0.0, 0.0
				known := true
				for b := int64(0); b < size && known; b++ {
					y, ok := v.again(ord, map[*Term]int64{x: b}).Eval(before)
					known = ok
					sum += E[a][b] * y.f
					scale += math.Abs(E[a][b] * y.f)
				}
				z, ok := v.again(ord, map[*Term]int64{x: a}).Eval(after)
				if known && ok && math.Abs(z.f-sum) > 1e-9*scale {
					broken = fmt.Sprintf("a pass does not treat every entry alike: it leaves %g where %g is due", z.f, sum)
				}
			}
			done := func(a int64) bool { return float64(a-cc.i)*g < 0 }
			for a := int64(0); a < size; a++ {
				for b := int64(0); b < size; b++ {
					id := 0.0
					if a == b {
						id = 1
					}
					if E[a][b] != id {
						if a != b {
							used++
						}
						right = right && b == cc.i && !done(a)
						left = left && a == cc.i && (a == b || done(b))
					}
				}
			}
			if E[cc.i][cc.i] == 0 {
				return nil, "a pass loses an entry"
			}
		}
	}
	if seen < 12 || used < 6 {
		return nil, fmt.Sprintf("not enough to go by (%d, %d)", seen, used)
	}
	if !right && !left {
		return nil, "a pass is no step of a substitution"
	}
	one := Num(SFloat, 1)
	at := func(e *Term, p []*Term) *Term {
		if table {
			return subst(e, map[*Term]*Term{x: p[0], col: p[1]})
		}
		return subst(e, map[*Term]*Term{x: p[0]})
	}
	info := &solveInfo{key: key, table: table, broken: broken}
	info.pre = func(p []*Term) *Term { return at(start, p) }
	info.back = func(p []*Term, r func([]*Term) *Term) *Term {
		colIs := map[*Term]*Term{}
		if table {
			colIs[col] = p[1]
		}
		place := func(u *Term) []*Term {
			if table {
				return []*Term{u, p[1]}
			}
			return []*Term{u}
		}
		diag := func(u *Term) *Term { return Ite(visited(u), FDiv(one, subst(unit(u, u, u), colIs)), one) }
		u := p[0]
		b := FreshSym("s", SInt)
		tm.nonneg[b] = true
		lo, cnt := Int(0), u
		if g < 0 {
			lo, cnt = AddC(u, 1), Sub(c0, u)
			if n != nil {
				cnt = AddC(Sub(n, u), -1)
			}
		}
		jj := Add(lo, b)
		var m *Term
		if right {
			m = Ite(visited(jj), FDiv(subst(unit(u, jj, jj), colIs), subst(unit(jj, jj, jj), colIs)), Num(SFloat, 0))
		} else {
			m = Ite(visited(u), FDiv(subst(unit(u, jj, u), colIs), subst(unit(u, u, u), colIs)), Num(SFloat, 0))
		}
		return Add(Mul(diag(u), r(place(u))), Scale(Sum(b, cnt, Mul(m, r(place(jj)))), -1))
	}
	return info, ""
}

// unsolved: what an entry was before the substitutions that led to it, and the same by way of what
// it and the others are afterwards.
// An entry that no loop settled is given as it is (by is false).
func (in *Interp) unsolved(t *Term) (was, back, by *Term) {
	unkT := Unk(SFloat, "an array that no substitution is known to settle")
	if t.op == OIte && !t.args[0].unk {
		c := t.args[0]
		w1, b1, k1 := in.unsolved(t.args[1])
		w2, b2, k2 := in.unsolved(t.args[2])
		return Ite(c, w1, w2), Ite(c, b1, b2), Or(And(c, k1), And(Not(c), k2))
	}
	if in.settled(t) {
		return Num(SFloat, 0), Num(SFloat, 0), tFalse
	}
	was, back = in.unsolvedAt(t, unkT)
	return was, back, tTrue
}

// settled: the term does not depend on what loops inside vpSolving left behind.
func (in *Interp) settled(t *Term) bool {
	return !t.unk && !someTerm(func(a *Term) bool {
		return a.op == OApp && len(a.args) > 0 && (in.solveVers[a.args[0].name] || a.name == "wild" && in.solveKey(a.args[0].name))
	}, t)
}

func (in *Interp) solveKey(name string) bool {
	for k := range in.solveKeys {
		if strings.Contains(name, "@"+k+"@") {
			return true
		}
	}
	return false
}

func (in *Interp) unsolvedAt(t, unkT *Term) (was, back *Term) {
	if t.unk || t.op != OApp || t.name != "ver" {
		return unkT, unkT
	}
	infoOf := func(t *Term) *solveInfo {
		if t.op == OApp && t.name == "ver" {
			return in.solved[t.args[0].name]
		}
		return nil
	}
	info := infoOf(t)
	if info == nil {
		return unkT, unkT
	}
	split := func(t *Term, table bool) (func(p []*Term) *Term, []*Term) {
		k := len(t.args) - 1
		if table {
			k--
		}
		return func(p []*Term) *Term {
			return App("ver", SFloat, append(append([]*Term{}, t.args[:k]...), p...)...)
		}, t.args[k:]
	}
	r, p := split(t, info.table)
	first := info
	expr := func(p []*Term) *Term { return first.back(p, r) }
	was = info.pre(p)
	broken := func(i *solveInfo) bool {
		if i.broken != "" {
			in.hint(i.key, i.broken)
		}
		return i.broken != ""
	}
	bad := broken(info)
	for depth := 0; depth < 4; depth++ {
		next := infoOf(was)
		if next == nil {
			break
		}
		if next.table != info.table {
			return unkT, unkT
		}
		_, wp := split(was, info.table)
		for i := range wp {
			if wp[i] != p[i] {
				return unkT, unkT
			}
		}
		inner := expr
		expr = func(p []*Term) *Term { return next.back(p, inner) }
		was = next.pre(p)
		info = next
		bad = broken(info) || bad
	}
	if someTerm(func(a *Term) bool { return infoOf(a) != nil }, was) {
		return unkT, unkT
	}
	if bad {
		// the invariant does not hold
		return was, Add(expr(p), App("wild", SFloat, Sym("broken@"+info.key, SAny)))
	}
	return was, expr(p)
}

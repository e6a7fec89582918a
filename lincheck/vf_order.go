package main

import (
	"fmt"
	"go/ast"
	"strings"
	"time"
)

// Order invariants. A float array that a coarse loop changes is followed as ordered when every pass
// exchanges entries among the places from its counter on and leaves the largest of them at the
// counter: then the places before the counter hold, at the start of every pass, the largest
// entries in decreasing order, and after the last pass the whole array is in decreasing order. The
// columns (or rows) of a table that the same passes exchange along with the entries follow them.
// Whether a pass does so is decided on the closed form of what one pass does to an arbitrary array
// of which the places before the counter are ordered; no pass is run.

const (
	ordUnknown = iota
	ordYes
	ordNo
)

type orderInfo struct {
	key string // the loop
	seq int
	st  int
	n   *Term
	why string
}

type pairInfo struct {
	key  string
	st   int
	axis int // the columns (1) or the rows (0) follow
}

// leafLoop: a loop without another one inside.
func (in *Interp) leafLoop(body *ast.BlockStmt) bool {
	leaf := true
	ast.Inspect(body, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit, *ast.ReturnStmt:
			leaf = false
		}
		return leaf
	})
	return leaf
}

// orderedValue: an entry of an arbitrary array whose places before c are in decreasing order and
// hold nothing smaller than the others.
func (v *Valuation) orderedValue(h uint64, c, i int64) float64 {
	g := func(t int64, ties bool) float64 {
		if ties {
			t = (t+100)/2 - 50
		}
		switch t {
		case 0:
			return 0
		case 1:
			return 1e-30
		case -1:
			return -1e-30
		}
		return float64(t) * 1.25
	}
	style := h >> 8 % 4
	if style == 3 { // hardly apart
		near := func(t int64) float64 { return 2.5 * (1 + float64(t)*1e-14) }
		if i < c {
			return near(200 - i)
		}
		return near(int64(v.hash("behind", []int64{int64(h), i}) % 100))
	}
	top := int64(h>>16%9) - 1
	if i < c {
		return g(top-i, style == 1)
	}
	k := v.hash("behind", []int64{int64(h), i})
	x := g(top-c-int64(k%4), style == 1)
	if style == 0 {
		x -= float64(k>>20%100000) / 1e6
	}
	return x
}

// again: the same valuation with other values for some symbols.
func (v *Valuation) again(ordered map[*Term]int64, set map[*Term]int64) *Valuation {
	w := &Valuation{syms: map[*Term]Val{}, memo: map[*Term]Val{}, seed: v.seed, mode: v.mode, pal: v.pal, fuel: 300000, ordered: ordered}
	for s, x := range v.syms {
		w.syms[s] = x
	}
	for s, i := range set {
		w.syms[s] = Val{i: i}
	}
	return w
}

// orders looks for arrays the loop puts in order.
func (in *Interp) orders(key string, k *Term, base, head, end *State, counters []*Term, cond, rangeN *Term, objs map[*VObj]bool, brks []*State, open bool) (map[*VObj]*orderInfo, map[*VObj]*pairInfo) {
	ords, pairs := map[*VObj]*orderInfo{}, map[*VObj]*pairInfo{}
	if end.dead() {
		return ords, pairs
	}
	for _, o := range sortedObjs(objs) {
		hc, ec := head.mem[o], end.mem[o]
		if s, ok := sortOf(o.typ); !ok || s != SFloat || hc == nil || ec == nil || hc.ver == "" || hc.havoc || ec.havoc || hc.ver != ec.ver || len(ec.regs) == 0 {
			continue
		}
		n := lengthOf(base, o)
		if in.trace {
			fmt.Println("ORD?", key[strings.LastIndex(key, "/")+1:], "n", n, len(ec.regs), len(counters))
		}
		if n == nil {
			continue
		}
		for _, c := range counters {
			info, ps := in.orderedBy(key, k, base, head, end, c, cond, rangeN, o, n, objs, brks)
			if in.trace {
				fmt.Println("ORD", key[strings.LastIndex(key, "/")+1:], "->", info.st, info.why, len(ps))
			}
			if info.st == ordUnknown {
				continue
			}
			if open {
				info.st = ordUnknown
			}
			ords[o] = info
			for q, p := range ps {
				pairs[q] = p
			}
			break
		}
	}
	return ords, pairs
}

func (in *Interp) orderedBy(key string, k *Term, base, head, end *State, c, cond, rangeN *Term, o *VObj, n *Term, objs map[*VObj]bool, brks []*State) (*orderInfo, map[*VObj]*pairInfo) {
	in.permFresh++
	info := &orderInfo{key: key, seq: in.permFresh, n: n}
	loops := in.loops
	in.loops = nil
	defer func() { in.loops = loops }()
	x := Sym(fmt.Sprintf("ord#%d", in.permFresh), SInt)
	row := Sym(fmt.Sprintf("ord#%d'", in.permFresh), SInt)
	fx := end.facts.with(Ge0(x), Lt(x, n))
	read := func(ct *Content, q *VObj, oidx []*Term, at *Term, f *Facts) *Term {
		t, ok := in.readFrom(ct, len(ct.regs)-1, q, oidx, at, f, 0).(*Term)
		if !ok || t.unk {
			return nil
		}
		return in.simpT(f, t)
	}
	after, before := read(end.mem[o], o, nil, x, fx), read(head.mem[o], o, nil, x, fx)
	if after == nil || before == nil || before.op != OApp || before.name != "ver" {
		info.why = "a pass is not known"
		return info, nil
	}
	hv := before.args[0]
	// nothing else that loops left behind may decide what a pass does
	for _, s := range []*Term{after} {
		if someTerm(func(t *Term) bool {
			return t.op == OApp && (strings.HasPrefix(t.name, "wild") || t.name == "ver" && t.args[0] != hv && wildVer(t.args[0].name))
		}, s) {
			info.why = "a pass depends on other values"
			return info, nil
		}
	}
	// what is left when the loop ends early
	type early struct{ live, x *Term }
	var ends []early
	var lives []*Term
	for _, b := range brks {
		if b.dead() {
			continue
		}
		e := early{in.simpT(b.facts, b.live), read(b.mem[o], o, nil, x, b.facts.with(Ge0(x), Lt(x, n)))}
		foreign := func(t *Term) bool {
			return someTerm(func(t *Term) bool {
				return t.op == OApp && (strings.HasPrefix(t.name, "wild") || t.name == "ver" && t.args[0] != hv && wildVer(t.args[0].name))
			}, t)
		}
		entry := map[*Term]bool{}
		for _, a := range base.facts.all() {
			entry[a] = true
		}
		for _, a := range b.facts.all() {
			if !entry[a] {
				e.live = And(e.live, a)
			}
		}
		if e.x == nil || e.live.unk || foreign(e.x) || foreign(e.live) {
			info.why = "where the loop ends early is not known"
			return info, nil
		}
		ends = append(ends, e)
		lives = append(lives, e.live)
	}
	// only what concerns the integers is assumed: the array is arbitrary
	var assume []*Term
	for _, a := range end.facts.all() {
		if !a.unk && !someTerm(func(t *Term) bool { return t.op == OApp || t.sort == SFloat }, a) {
			assume = append(assume, a)
		}
	}
	for i, j := 0, len(assume)-1; i < j; i, j = i+1, j-1 {
		assume[i], assume[j] = assume[j], assume[i]
	}
	// sizes around the constants a pass compares with
	sizes := [][2]int64{{2, 7}}
	for _, m := range intConsts(append([]*Term{after}, lives...)) {
		if m > 5 && m <= 140 && len(sizes) < 6 {
			sizes = append(sizes, [2]int64{m, m + 5})
		}
	}
	type table struct {
		q             *VObj
		before, after *Term // row, column
	}
	var tabs []table
	ps := map[*VObj]*pairInfo{}
	for _, q := range sortedObjs(objs) {
		hc, ec := head.mem[q], end.mem[q]
		if s, ok := sortOf(q.typ); q == o || !ok || s != SFloat || hc == nil || ec == nil || hc.ver == "" || hc.havoc {
			continue
		}
		p := &pairInfo{key: key}
		ps[q] = p
		if ec.havoc || ec.ver != hc.ver {
			continue
		}
		fq := fx.with(Ge0(row), Lt(row, n))
		b, a := read(hc, q, []*Term{row}, x, fq), read(ec, q, []*Term{row}, x, fq)
		if a == nil || b == nil {
			continue
		}
		if someTerm(func(t *Term) bool {
			return t.op == OApp && (strings.HasPrefix(t.name, "wild") || t.name == "ver" && t.args[0] != hv && wildVer(t.args[0].name) && (b.op != OApp || t.args[0] != b.args[0]))
		}, a) {
			continue
		}
		tabs = append(tabs, table{q, b, a})
	}
	okCols, okRows, tried := map[*VObj]bool{}, map[*VObj]bool{}, map[*VObj]int{}
	for _, t := range tabs {
		okCols[t.q], okRows[t.q] = true, true
	}
	seen, moved := 0, 0
	broken := ""
	until := time.Now().Add(4 * time.Second)
	for round := 0; round < 6+2*len(sizes) && time.Now().Before(until); round++ {
		size := sizes[0]
		if round >= 8 {
			size = sizes[(round-6)/2]
		}
		lim := []*Term{Le(Int(size[0]), n), Le(n, Int(size[1])), Ge0(c), Lt(c, n)}
		if round >= 8 && round%2 == 0 {
			lim = append(lim, Le(c, Int(2)))
		} else if round >= 8 {
			lim = append(lim, Lt(n, AddC(c, 6)))
		}
		for _, v := range samples(append(append([]*Term{}, assume...), lim...), []*Term{n, c}, 24, 11+int64(round), round%5, until) {
			nn, ok1 := v.Eval(n)
			cc, ok2 := v.Eval(c)
			if !ok1 || !ok2 || nn.i > size[1] || cc.i < 0 || cc.i >= nn.i {
				continue
			}
			ord := map[*Term]int64{hv: cc.i}
			was, is := make([]float64, nn.i), make([]float64, nn.i)
			good := true
			for t := int64(0); t < nn.i && good; t++ {
				w := v.again(ord, map[*Term]int64{x: t})
				p, ok1 := w.Eval(before)
				q, ok2 := w.Eval(after)
				was[t], is[t] = p.f, q.f
				good = ok1 && ok2
			}
			if !good {
				continue
			}
			seen++
			for _, e := range ends {
				if l, ok := v.again(ord, nil).Eval(e.live); !ok {
					info.why = "where the loop ends early is not known"
					return info, nil
				} else if !l.b {
					continue
				}
				left, some := 0.0, false
				for t := int64(0); t < nn.i; t++ {
					q, ok := v.again(ord, map[*Term]int64{x: t}).Eval(e.x)
					if !ok {
						break
					}
					if some && q.f > left && broken == "" {
						broken = fmt.Sprintf("it ends early with %g behind %g (at place %d of %d: %v)", q.f, left, cc.i, nn.i, was)
					}
					left, some = q.f, true
				}
			}
			// entries from the counter on are exchanged, nothing else
			from := make([]int, nn.i)
			used := make([]bool, nn.i)
			distinct := true
			for t := range is {
				from[t] = -1
				for s := range was {
					if s != t && was[s] == was[t] {
						distinct = false
					}
				}
				for d := 0; d < len(was); d++ {
					s := (t + d) % len(was)
					if !used[s] && was[s] == is[t] {
						from[t], used[s] = s, true
						break
					}
				}
				if from[t] < 0 || int64(t) < cc.i && is[t] != was[t] {
					info.why = "a pass does not only exchange entries behind its counter"
					return info, nil
				}
				if from[t] != t {
					moved++
				}
			}
			for t := cc.i; t < nn.i; t++ {
				if is[t] > is[cc.i] && broken == "" {
					broken = fmt.Sprintf("a pass leaves %g at its place and %g behind it (%d of %d places: %v becomes %v)", is[cc.i], is[t], cc.i, nn.i, was, is)
				}
			}
			if distinct && round < 8 {
				for _, t := range tabs {
					for r := int64(0); r < nn.i; r++ {
						for col := int64(0); col < nn.i; col++ {
							ev := func(e *Term, r, c int64) (float64, bool) {
								y, ok := v.again(ord, map[*Term]int64{row: r, x: c}).Eval(e)
								return y.f, ok
							}
							now, ok := ev(t.after, r, col)
							a, ok1 := ev(t.before, r, int64(from[col]))
							b, ok2 := ev(t.before, int64(from[r]), col)
							if !ok || !ok1 || !ok2 {
								continue
							}
							tried[t.q]++
							okCols[t.q] = okCols[t.q] && now == a
							okRows[t.q] = okRows[t.q] && now == b
						}
					}
				}
			}
		}
	}
	if seen < 20 || moved < 5 {
		info.why = "not enough to go by"
		return info, nil
	}
	for q, p := range ps {
		switch {
		case tried[q] < 50:
		case okCols[q]:
			p.st, p.axis = ordYes, 1
		case okRows[q]:
			p.st, p.axis = ordYes, 0
		default:
			p.st = ordNo
		}
	}
	if broken != "" {
		info.st, info.why = ordNo, broken
		return info, ps
	}
	// the first pass starts at the first place
	start := subst(c, map[*Term]*Term{k: Int(0)})
	var entry []*Term
	for _, a := range base.facts.all() {
		if !a.unk && !someTerm(func(t *Term) bool { return t.op == OApp || t.sort == SFloat }, a) {
			entry = append(entry, a)
		}
	}
	try := func(as []*Term, e *Term, bad func(n, c int64) bool) (verdict int) {
		some := 0
		for round := 0; round < 4; round++ {
			for _, v := range samples(append(append([]*Term{}, as...), Le(Int(2), n), Le(n, Int(9))), []*Term{n, e}, 12, 3+int64(round), round, time.Now().Add(time.Second)) {
				a, ok1 := v.Eval(n)
				b, ok2 := v.Eval(e)
				if ok1 && ok2 {
					some++
					if bad(a.i, b.i) {
						return ordNo
					}
				}
			}
		}
		if some < 5 {
			return ordUnknown
		}
		return ordYes
	}
	switch try(entry, start, func(n, c int64) bool { return c > 0 }) {
	case ordNo:
		info.st, info.why = ordNo, "the first place is not looked at"
		return info, ps
	case ordUnknown:
		info.why = "where the loop starts is not known"
		return info, nil
	}
	// the last one leaves at most one place
	var exit []*Term
	exit = append(exit, entry...)
	exit = append(exit, Ge0(k))
	if rangeN != nil {
		exit = append(exit, Eq(k, rangeN))
	}
	if cond != nil {
		if cond.unk || someTerm(func(t *Term) bool { return t.op == OApp || t.sort == SFloat }, cond) {
			info.why = "where the loop ends is not known"
			return info, nil
		}
		exit = append(exit, Not(cond), Or(Eq(k, Int(0)), subst(cond, map[*Term]*Term{k: AddC(k, -1)})))
	}
	switch try(exit, c, func(n, c int64) bool { return c < n-1 }) {
	case ordNo:
		info.st, info.why = ordNo, "the loop ends before the last places are in order"
		return info, ps
	case ordUnknown:
		info.why = "where the loop ends is not known"
		return info, nil
	}
	info.st = ordYes
	return info, ps
}

// wilds lists the arrays left behind by loops that a term reads.
func wilds(t *Term) (names []string, reads []*Term) {
	seen := map[string]bool{}
	someTerm(func(t *Term) bool {
		if t.op == OApp && (t.name == "over" || t.name == "ver" && wildVer(t.args[0].name)) {
			if !seen[t.args[0].name] {
				names = append(names, t.args[0].name)
			}
			seen[t.args[0].name] = true
			reads = append(reads, t)
		}
		return false
	}, t)
	return
}

// notLess: a >= b for two entries of arrays whose order is known.
func (in *Interp) notLess(a, b *Term) *Term {
	for _, t := range []*Term{a, b} {
		if t.unk {
			return Unk(SBool, "values that are not known")
		}
		ns, rs := wilds(t)
		for _, r := range rs {
			if oi := in.ordVers[r.args[0].name]; oi == nil || (oi.st == ordYes) != (r.name == "over") {
				return Unk(SBool, "an array that may not be in order")
			}
		}
		if in.trace {
			for _, n := range ns {
				fmt.Println("ORDREAD", n[:5], n[strings.LastIndex(n, "/")+1:])
			}
		}
		for _, n := range ns {
			if in.ordVers[n] == nil || in.ordVers[n].st == ordUnknown {
				return Unk(SBool, "an array that may not be in order")
			}
		}
		if len(ns) == 0 {
			return Unk(SBool, "an array that may not be in order")
		}
	}
	for _, t := range []*Term{a, b} {
		ns, _ := wilds(t)
		for _, n := range ns {
			if oi := in.ordVers[n]; oi.st == ordNo {
				in.hint(oi.key, oi.why)
			}
		}
	}
	return FLe(b, a)
}

func (in *Interp) hint(key, why string) {
	h := "the loop at " + key[strings.LastIndex(key, "|")+1:] + ": " + why
	for _, g := range in.hints {
		if g == h {
			return
		}
	}
	in.hints = append(in.hints, h)
}

// follows: the entry x of a table belongs to the entry y of an ordered array.
func (in *Interp) follows(x, y, at *Term) *Term {
	unk := Unk(SBool, "a table that may not follow")
	if x.unk || y.unk || at.unk {
		return unk
	}
	xn, xr := wilds(x)
	yn, _ := wilds(y)
	if len(xn) != 1 || len(yn) != 1 || len(xr) != 1 {
		return unk
	}
	oi := in.ordVers[yn[0]]
	if oi == nil || oi.st == ordUnknown {
		return unk
	}
	p := in.pairVers[xn[0]]
	if p == nil {
		if s, ok := in.verSeq[xn[0]]; ok && s < oi.seq {
			in.hint(oi.key, "entries are exchanged and the table that goes with them is not")
			return tFalse
		}
		return unk
	}
	if p.key != oi.key || p.st == ordUnknown {
		return unk
	}
	if p.st == ordNo {
		in.hint(p.key, "entries are exchanged without the whole columns or rows of the table that goes with them")
		return tFalse
	}
	as := xr[0].args
	return Eq(as[len(as)-2+p.axis], at)
}

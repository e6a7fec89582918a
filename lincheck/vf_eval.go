package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Evaluation of closed-form terms under a valuation of their symbols. It is used only to triage
// equalities the algebra could not settle: two closed forms that differ under some valuation
// of the inputs are different functions of the inputs.

type Val struct {
	i int64
	f float64
	b bool
}

type Valuation struct {
	syms map[*Term]Val
	memo map[*Term]Val
	seed int64
	mode int // distribution of the values of uninterpreted float functions
	fuel int
	flip map[string]bool // arbitrary choices taken the other way
	pal  []float64       // the float constants of the terms, and values next to them
	// while the value of a symbol is being chosen, what depends on it is remembered apart
	cur     *Term
	scratch map[*Term]Val
	ordered map[*Term]int64 // arrays of which the first places are in order
	open    map[string]bool // unknown conditions answered by a guess, when guessing
}

type evalFail struct{ why string }

func newValuation(seed int64) *Valuation {
	return &Valuation{syms: map[*Term]Val{}, memo: map[*Term]Val{}, seed: seed, fuel: 3000000}
}

func (v *Valuation) hash(name string, args []int64) uint64 {
	h := uint64(1469598103934665603) ^ uint64(v.seed)*0x9E3779B97F4A7C15
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 1099511628211
	}
	for _, a := range args {
		h ^= uint64(a) + 0x9E3779B97F4A7C15 + (h << 6) + (h >> 2)
		h *= 0xff51afd7ed558ccd
		h ^= h >> 33
	}
	h ^= h >> 29
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 32
	return h
}

// Eval evaluates t; ok is false when the term contains unknowns or is too large.
func (v *Valuation) Eval(t *Term) (r Val, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(evalFail); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	return v.ev(t), true
}

func (v *Valuation) ev(t *Term) Val {
	if r, ok := v.memo[t]; ok {
		return r
	}
	if v.cur != nil {
		if r, ok := v.scratch[t]; ok {
			return r
		}
	}
	v.fuel--
	if v.fuel < 0 {
		panic(evalFail{"fuel"})
	}
	if t.unk && t.sort == SBool && v.open != nil {
		return v.guess(t)
	}
	r := v.ev1(t)
	closed := true
	for s := range t.syms {
		if isBeta(s) {
			closed = false
			break
		}
	}
	if closed {
		if v.cur != nil && t.syms[v.cur] {
			v.scratch[t] = r
		} else {
			v.memo[t] = r
		}
	}
	return r
}

// guess evaluates a condition that may depend on unknown values: what it cannot evaluate it answers by
// a guess, the same one for the same condition.
func (v *Valuation) guess(t *Term) (r Val) {
	if t.op != OUnk {
		r, ok := func() (r Val, ok bool) {
			defer func() {
				if e := recover(); e != nil {
					if ef, is := e.(evalFail); is && ef.why != "fuel" {
						ok = false
						return
					}
					panic(e)
				}
			}()
			return v.ev1(t), true
		}()
		if ok {
			return r
		}
	}
	for s := range t.syms {
		if isBeta(s) {
			panic(evalFail{"an unknown inside a bound form"})
		}
	}
	k := "?" + strconv.Itoa(t.id)
	v.open[k] = true
	return Val{b: v.flip[k]}
}

// everyGuess: f holds whatever the truth values of the unknown conditions met while evaluating it are.
func (v *Valuation) everyGuess(f func(w *Valuation) (bool, bool)) bool {
	budget := 64
	var rec func(flip map[string]bool) bool
	rec = func(flip map[string]bool) bool {
		budget--
		if budget < 0 {
			return false
		}
		w := &Valuation{syms: map[*Term]Val{}, memo: map[*Term]Val{}, seed: v.seed, mode: v.mode, pal: v.pal, fuel: 3000000, flip: flip, open: map[string]bool{}}
		for s, x := range v.syms {
			w.syms[s] = x
		}
		r, ok := f(w)
		if !ok || !r {
			return false
		}
		var ks []string
		for k := range w.open {
			if _, set := flip[k]; !set {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		if len(ks) == 0 {
			return true
		}
		// the guesses so far were false: now with the first of them true, and fixed at false
		for _, b := range []bool{true, false} {
			g := map[string]bool{ks[0]: b}
			for k, x := range flip {
				g[k] = x
			}
			if !rec(g) {
				return false
			}
		}
		return true
	}
	return rec(map[string]bool{})
}

func (v *Valuation) ev1(t *Term) Val {
	switch t.op {
	case OSym:
		if r, ok := v.syms[t]; ok {
			return r
		}
		if t.sort == SAny {
			h := fnv.New64a()
			h.Write([]byte(t.name))
			return Val{i: int64(h.Sum64() >> 8)}
		}
		panic(evalFail{"symbol " + t.name})
	case OUnk:
		panic(evalFail{"unknown " + t.name})
	case OPoly:
		if t.sort == SInt {
			var s int64
			for _, m := range t.monos {
				p := int64(m.c)
				for _, f := range m.f {
					p *= v.ev(f).i
				}
				s += p
			}
			return Val{i: s}
		}
		s := 0.0
		for _, m := range t.monos {
			p := m.c
			for _, f := range m.f {
				p *= v.ev(f).f
			}
			s += p
		}
		return Val{f: s}
	case ODiv:
		a, b := v.ev(t.args[0]).i, v.ev(t.args[1]).i
		if b == 0 {
			panic(evalFail{"division by zero"})
		}
		return Val{i: a / b}
	case OMin:
		a := v.ev(t.args[0]).i
		if a > 0 {
			a = 0
		}
		return Val{i: a}
	case OIte:
		if v.ev(t.args[0]).b {
			return v.ev(t.args[1])
		}
		return v.ev(t.args[2])
	case OApp:
		return v.app(t)
	case OSum:
		n := v.ev(t.args[1]).i
		var s Val
		v.each(t.args[0], n, func() bool {
			x := v.ev(t.args[2])
			s.i += x.i
			s.f += x.f
			return true
		})
		return s
	case OFirst:
		n := v.ev(t.args[1]).i
		r := n
		if r < 0 {
			r = 0
		}
		v.eachI(t.args[0], n, func(i int64) bool {
			if v.ev(t.args[2]).b {
				r = i
				return false
			}
			return true
		})
		return Val{i: r}
	case OExists:
		n := v.ev(t.args[1]).i
		r := false
		v.each(t.args[0], n, func() bool {
			r = v.ev(t.args[2]).b
			return !r
		})
		return Val{b: r}
	case OFold:
		b, nt, phi, init, upd := foldParts(t)
		n := v.ev(nt).i
		cur := make([]Val, len(phi))
		for i, x := range init {
			cur[i] = v.ev(x)
		}
		v.each(b, n, func() bool {
			old := make([]Val, len(phi))
			had := make([]bool, len(phi))
			for i, p := range phi {
				old[i], had[i] = v.syms[p]
				v.syms[p] = cur[i]
			}
			nx := make([]Val, len(phi))
			func() {
				defer func() {
					for i, p := range phi {
						if had[i] {
							v.syms[p] = old[i]
						} else {
							delete(v.syms, p)
						}
					}
				}()
				for i, u := range upd {
					nx[i] = v.ev(u)
				}
			}()
			cur = nx
			return true
		})
		w, _ := strconv.Atoi(t.name)
		return cur[w]
	case ORsel:
		return v.rsel(t)
	case OGe0:
		return Val{b: v.ev(t.args[0]).i >= 0}
	case OEq0:
		return Val{b: v.ev(t.args[0]).i == 0}
	case OFLt:
		return Val{b: v.ev(t.args[0]).f < v.ev(t.args[1]).f}
	case OFLe:
		return Val{b: v.ev(t.args[0]).f <= v.ev(t.args[1]).f}
	case OFEq:
		return Val{b: v.ev(t.args[0]).f == v.ev(t.args[1]).f}
	case OAnd:
		// faults inside a conjunct do not matter when another conjunct is false
		return Val{b: v.shortCircuit(t.args, false)}
	case OOr:
		return Val{b: v.shortCircuit(t.args, true)}
	case ONot:
		return Val{b: !v.ev(t.args[0]).b}
	case OTrue:
		return Val{b: true}
	case OFalse:
		return Val{b: false}
	case OFromInt:
		return Val{f: float64(v.ev(t.args[0]).i)}
	case OFDiv:
		d := v.ev(t.args[1]).f
		if d == 0 {
			panic(evalFail{"division by zero"})
		}
		return Val{f: v.ev(t.args[0]).f / d}
	}
	panic(fmt.Sprintf("eval op %d", t.op))
}

// shortCircuit evaluates a conjunction (stop=false) or disjunction (stop=true).
func (v *Valuation) shortCircuit(xs []*Term, stop bool) bool {
	var fail *evalFail
	for _, x := range xs {
		r, ok := func() (r bool, ok bool) {
			defer func() {
				if e := recover(); e != nil {
					if ef, is := e.(evalFail); is && ef.why != "fuel" {
						fail = &ef
						ok = false
						return
					}
					panic(e)
				}
			}()
			return v.ev(x).b, true
		}()
		if ok && r == stop {
			return stop
		}
	}
	if fail != nil {
		panic(*fail)
	}
	return !stop
}

func (v *Valuation) each(b *Term, n int64, f func() bool) {
	v.eachI(b, n, func(int64) bool { return f() })
}

func (v *Valuation) eachI(b *Term, n int64, f func(int64) bool) {
	old, had := v.syms[b]
	defer func() {
		if had {
			v.syms[b] = old
		} else {
			delete(v.syms, b)
		}
	}()
	for i := int64(0); i < n; i++ {
		v.fuel--
		if v.fuel < 0 {
			panic(evalFail{"fuel"})
		}
		v.syms[b] = Val{i: i}
		if !f(i) {
			return
		}
	}
}

func (v *Valuation) app(t *Term) Val {
	if strings.HasPrefix(t.name, "const:") {
		switch t.name[6:] {
		case "+Inf":
			return Val{f: math.Inf(1)}
		case "-Inf":
			return Val{f: math.Inf(-1)}
		default:
			return Val{f: math.NaN()}
		}
	}
	if strings.HasPrefix(t.name, "int:") {
		n, _ := strconv.ParseInt(t.name[4:], 10, 64)
		return Val{i: n}
	}
	vals := make([]Val, len(t.args))
	for i, a := range t.args {
		vals[i] = v.ev(a)
	}
	if f, ok := mathFns[t.name]; ok {
		return Val{f: f(vals)}
	}
	if t.name == "id" {
		return vals[0]
	}
	if t.name == "ulpeq" {
		return Val{b: ulpClose(vals[0].f, vals[1].f, vals[2].i)}
	}
	if t.name == "trunc" {
		return Val{i: int64(vals[0].f)}
	}
	if t.name == "pver" || t.name == "parity" {
		return v.permutation(t, vals)
	}
	var as []int64
	for i, a := range t.args {
		switch a.sort {
		case SFloat:
			as = append(as, int64(math.Float64bits(round9(vals[i].f))))
		case SBool:
			if vals[i].b {
				as = append(as, 1)
			} else {
				as = append(as, 0)
			}
		default:
			as = append(as, vals[i].i)
		}
	}
	if t.name == "over" {
		k := len(as)
		return Val{f: v.orderedValue(v.hash(t.name, as[:k-2]), as[k-2], as[k-1])}
	}
	if t.name == "ver" && v.ordered != nil {
		if c, ok := v.ordered[t.args[0]]; ok {
			k := len(as)
			return Val{f: v.orderedValue(v.hash("over", as[:k-1]), c, as[k-1])}
		}
	}
	h := v.hash(t.name, as)
	if v.mode == 5 && t.sort == SFloat && len(as) == 2 && t.args[0].sort == SInt && t.args[1].sort == SInt && as[0] > as[1] {
		// a table that is symmetric but for a few entries
		if h>>20%[]uint64{4, 16, 64}[uint64(v.seed)%3] != 0 {
			h = v.hash(t.name, []int64{as[1], as[0]})
		}
	}
	switch t.sort {
	case SInt:
		if t.name == "wildr" {
			if lo, hi := vals[1].i, vals[2].i; lo <= hi {
				return Val{i: lo + int64(h%uint64(hi-lo+1))}
			}
		}
		if t.name == "wildlo" {
			return Val{i: vals[1].i + int64(h%7)}
		}
		switch v.seed >> 8 % 4 {
		case 1:
			return Val{i: int64(h%11) - 4}
		case 2:
			return Val{i: int64(h % 120)}
		}
		return Val{i: int64(h % 7)}
	case SBool:
		b := h%2 == 0
		if t.name == "wild" && v.flip[t.args[0].name] {
			b = !b
		}
		return Val{b: b}
	}
	// some valuations have few distinct values, so that coincidences are seen as well
	switch v.mode {
	case 1:
		return Val{f: []float64{0, 1.5, 1.5}[h>>20%3]}
	case 2:
		if h>>20%24 == 0 {
			return Val{f: -2.25}
		}
		return Val{f: 1.25}
	case 3:
		return Val{}
	case 4:
		if h>>20%9 != 0 {
			return Val{}
		}
	case 7:
		// infinite and NaN values among others, often against zeros
		if h>>20%[]uint64{3, 8, 24}[uint64(v.seed)%3] == 0 {
			return Val{f: specials[h>>32%uint64(len(specials))]}
		}
		if h>>40%3 == 0 {
			return Val{}
		}
	case 6:
		// the values the code itself mentions, and their neighbourhood
		if n := uint64(len(v.pal)); n > 0 && h>>20%8 != 0 {
			k := n
			if k > 6 && v.seed%2 == 0 {
				k = 6
			}
			return Val{f: v.pal[h>>24%k]}
		}
	}
	// a value with few significant bits; zero and equal values now and then
	x := float64(int64(h%4096)-2048) / 256
	if h>>20%11 == 0 {
		x = 0
	} else if h>>20%11 == 1 {
		x = 1.5
	}
	return Val{f: x}
}

func round9(x float64) float64 {
	if x == 0 || math.IsNaN(x) || math.IsInf(x, 0) {
		return x
	}
	m := math.Pow(10, 9-math.Floor(math.Log10(math.Abs(x))))
	r := math.Round(x*m) / m
	if r == 0 {
		return 0
	}
	return r
}

var mathFns = map[string]func([]Val) float64{
	"math.Sqrt":  func(a []Val) float64 { return math.Sqrt(a[0].f) },
	"math.Abs":   func(a []Val) float64 { return math.Abs(a[0].f) },
	"math.Hypot": func(a []Val) float64 { return math.Hypot(a[0].f, a[1].f) },
	"math.Max":   func(a []Val) float64 { return math.Max(a[0].f, a[1].f) },
	"math.Min":   func(a []Val) float64 { return math.Min(a[0].f, a[1].f) },
	"math.Pow":   func(a []Val) float64 { return math.Pow(a[0].f, a[1].f) },
	"math.Floor": func(a []Val) float64 { return math.Floor(a[0].f) },
	"math.Ceil":  func(a []Val) float64 { return math.Ceil(a[0].f) },
	"math.Exp":   func(a []Val) float64 { return math.Exp(a[0].f) },
	"math.Trunc": func(a []Val) float64 { return math.Trunc(a[0].f) },
	"math.Log":   func(a []Val) float64 { return math.Log(a[0].f) },
}

// ORsel: args = binders..., counts..., guard, equations..., value, else. name = "nb.neq".
func rselParts(t *Term) (bs, ns []*Term, guard *Term, eqs []*Term, val, els *Term) {
	p := strings.Split(t.name, ".")
	nb, _ := strconv.Atoi(p[0])
	ne, _ := strconv.Atoi(p[1])
	bs = t.args[:nb]
	ns = t.args[nb : 2*nb]
	guard = t.args[2*nb]
	eqs = t.args[2*nb+1 : 2*nb+1+ne]
	val = t.args[2*nb+1+ne]
	els = t.args[2*nb+2+ne]
	return
}

func (v *Valuation) rsel(t *Term) Val {
	bs, ns, guard, eqs, val, els := rselParts(t)
	found := false
	var res Val
	plan := rselPlan(t)
	var rec func(i int)
	rec = func(i int) {
		if i == len(bs) {
			for _, e := range eqs {
				if v.ev(e).i != 0 {
					return
				}
			}
			if v.ev(guard).b {
				found = true
				res = v.ev(val)
			}
			return
		}
		n := v.ev(ns[i]).i
		if p := plan[i]; p.eq != nil {
			old, had := v.syms[bs[i]]
			v.syms[bs[i]] = Val{}
			r := v.ev(p.eq).i
			if x := -r / p.c; x*p.c == -r && x >= 0 && x < n {
				v.syms[bs[i]] = Val{i: x}
				rec(i + 1)
			}
			if had {
				v.syms[bs[i]] = old
			} else {
				delete(v.syms, bs[i])
			}
			return
		}
		v.each(bs[i], n, func() bool { rec(i + 1); return true })
	}
	rec(0)
	if found {
		return res
	}
	return v.ev(els)
}

// rselStep: the position is determined by the positions before it through an equation linear in it.
type rselStep struct {
	eq *Term
	c  int64
}

func rselPlan(t *Term) []rselStep {
	if p, ok := tm.plans[t]; ok {
		return p
	}
	bs, _, _, eqs, _, _ := rselParts(t)
	plan := make([]rselStep, len(bs))
	for i, b := range bs {
		for _, e := range eqs {
			late := false
			for _, l := range bs[i+1:] {
				late = late || e.syms[l]
			}
			if late || !e.syms[b] {
				continue
			}
			c, lin := int64(0), true
			for _, m := range polyOf(e) {
				for _, f := range m.f {
					if f == b {
						lin = lin && len(m.f) == 1
						c = int64(m.c)
					} else if f.syms[b] {
						lin = false
					}
				}
			}
			if lin && c != 0 {
				plan[i] = rselStep{e, c}
				break
			}
		}
	}
	tm.plans[t] = plan
	return plan
}

func Rsel(bs, ns []*Term, guard *Term, eqs []*Term, val, els *Term) *Term {
	d := val.depth
	for _, e := range append(append([]*Term{guard}, eqs...), ns...) {
		if e.depth > d {
			d = e.depth
		}
	}
	sub := map[*Term]*Term{}
	var args []*Term
	for i, b := range bs {
		sub[b] = betaSym(d, SInt, i)
		args = append(args, sub[b])
	}
	for _, n := range ns {
		args = append(args, subst(n, sub))
	}
	args = append(args, subst(guard, sub))
	for _, e := range eqs {
		args = append(args, subst(e, sub))
	}
	args = append(args, subst(val, sub), els)
	t := mk(ORsel, val.sort, fmt.Sprintf("%d.%d", len(bs), len(eqs)), args, nil)
	for _, b := range bs {
		delete(t.syms, sub[b])
	}
	return t
}

// ---- sampling

// sampleSym proposes a value for an integer symbol.
func proposeInt(rng *rand.Rand, others, consts []int64, spread, dim bool) int64 {
	if spread {
		// sizes well above the degenerate ones, positions anywhere below them
		if dim {
			switch r := rng.Intn(8); {
			case r < 4:
				return 2 + int64(rng.Intn(9))
			case r < 5 && len(others) > 0:
				return others[rng.Intn(len(others))] + int64(rng.Intn(3))
			case r < 7:
				return []int64{52, 53, 54, 57, 104, 105, 106, 110}[rng.Intn(8)]
			}
			return 11 + int64(rng.Intn(40))
		}
		if r := rng.Intn(10); r < 7 && len(others) > 0 {
			if m := others[rng.Intn(len(others))]; m > 0 {
				return rng.Int63n(m + 1)
			}
		}
	}
	switch r := rng.Intn(23); {
	case r >= 20:
		if len(consts) == 0 {
			return int64(rng.Intn(4))
		}
		return consts[rng.Intn(len(consts))]
	case r < 4 && len(others) > 0:
		return others[rng.Intn(len(others))] + int64(rng.Intn(3)) - 1
	case r < 7 && len(others) > 0:
		m := others[rng.Intn(len(others))]
		if m > 0 {
			return rng.Int63n(m)
		}
		return m
	case r < 11:
		return int64(rng.Intn(4))
	case r < 13:
		return int64(rng.Intn(9)) - 2
	case r < 17:
		return []int64{50, 51, 52, 53, 103, 104, 105, 55, 60, 156}[rng.Intn(10)]
	default:
		return int64(rng.Intn(120))
	}
}

// isSize: the symbol is the size of an operand.
func isSize(s *Term) bool {
	if i := strings.LastIndexByte(s.name, '.'); i >= 0 {
		switch s.name[i+1:] {
		case "rows", "cols", "len", "width", "n":
			return true
		}
	}
	return false
}

// intConsts: the small integer constants the terms mention, and the values next to the boundary they make.
func intConsts(ts []*Term) []int64 {
	set := map[int64]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			if t.sort == SInt && len(m.f) == 0 && math.Abs(m.c) <= 400 {
				c := int64(m.c)
				for _, x := range []int64{c, -c, c + 1, 1 - c} {
					if x >= -2 {
						set[x] = true
					}
				}
			}
			for _, f := range m.f {
				rec(f)
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
	var out []int64
	for x := range set {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// boundaries: the closed integer comparisons inside terms; a value on either side of one of them
// is worth trying.
func boundaries(ts []*Term) (ints, conds []*Term) {
	seen := map[*Term]bool{}
	note := func(t *Term) {
		switch t.op {
		case OGe0, OEq0:
			if len(t.syms) > 0 {
				ints = append(ints, t.args[0])
			}
			conds = append(conds, t)
		case OFLt, OFLe, OFEq, OAnd, OOr:
			conds = append(conds, t)
		}
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] || len(seen) > 20000 {
			return
		}
		seen[t] = true
		if !t.unk && t.sort == SBool {
			var open []*Term
			for s := range t.syms {
				if isBeta(s) {
					open = append(open, s)
				}
			}
			if len(open) == 0 {
				note(t)
			} else if (t.op == OGe0 || t.op == OEq0) && len(ints) < 300 {
				// at the first positions of the enclosing range
				for k := int64(0); k < 2; k++ {
					sub := map[*Term]*Term{}
					for _, s := range open {
						if s.sort == SInt {
							sub[s] = Int(k)
						}
					}
					if u := subst(t, sub); len(sub) == len(open) && len(u.syms) > 0 {
						note(u)
					}
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, f := range m.f {
				rec(f)
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
	if len(ints) > 400 {
		ints = ints[:400]
	}
	if len(conds) > 400 {
		conds = conds[:400]
	}
	return
}

// set gives the symbol under consideration a value.
func (v *Valuation) set(s *Term, x Val) {
	if v.cur != s {
		v.memo = map[*Term]Val{}
	}
	v.syms[s] = x
	if len(v.scratch) > 0 {
		v.scratch = map[*Term]Val{}
	}
}

// crossing proposes a value of s near the place where the integer form p changes its sign.
func (v *Valuation) crossing(p, s *Term, rng *rand.Rand) (int64, bool) {
	at := func(x int64) (int64, bool) {
		v.set(s, Val{i: x})
		r, ok := v.Eval(p)
		return r.i, ok
	}
	a, ok := at(0)
	if !ok {
		return 0, false
	}
	b, ok := at(1)
	if !ok {
		return 0, false
	}
	if b != a {
		return -a/(b-a) + int64(rng.Intn(3)) - 1, true
	}
	b, ok = at(5200)
	if !ok || b == a {
		return 0, false
	}
	return int64(-float64(a)/(float64(b-a)/5200)) + int64(rng.Intn(105)) - 52, true
}

// crossingF: the value of s at which the two sides of the comparison p are equal, if they are linear in s.
func (v *Valuation) crossingF(p, s *Term) (float64, bool) {
	at := func(x float64) (float64, bool) {
		v.set(s, Val{f: x})
		a, ok := v.Eval(p.args[0])
		b, ok2 := v.Eval(p.args[1])
		return a.f - b.f, ok && ok2
	}
	a, ok := at(0)
	b, ok2 := at(1)
	c, ok3 := at(-2)
	if !ok || !ok2 || !ok3 || a == b || a-c != 2*(b-a) {
		return 0, false
	}
	x := -a / (b - a)
	return x, !math.IsNaN(x) && !math.IsInf(x, 0)
}

// palette: the float constants inside terms, with values below and above them.
func palette(ts []*Term, rng *rand.Rand) []float64 {
	seen := map[*Term]bool{}
	set := map[float64]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			if t.sort == SFloat && len(m.f) == 0 {
				set[m.c] = true
				set[-m.c] = true
			}
			for _, f := range m.f {
				rec(f)
			}
		}
		if t.op == OFromInt {
			if c, ok := constantT(t.args[0]); ok {
				set[float64(c)] = true
				set[-float64(c)] = true
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
	var cs []float64
	for c := range set {
		if c != 0 && !math.IsInf(c, 0) && !math.IsNaN(c) {
			cs = append(cs, c)
		}
	}
	sort.Float64s(cs)
	rng.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	if len(cs) > 12 {
		cs = cs[:12]
	}
	var out []float64
	for _, c := range cs {
		out = append(out, c, c*1.5, c*0.5)
	}
	return append(out, 0)
}

// samples produces valuations satisfying the assumptions. Symbols are those in terms.
func samples(assume []*Term, terms []*Term, want int, seed int64, round int, until time.Time) []*Valuation {
	set := map[*Term]bool{}
	for _, t := range append(append([]*Term{}, assume...), terms...) {
		for s := range t.syms {
			set[s] = true
		}
	}
	var syms []*Term
	for s := range set {
		syms = append(syms, s)
	}
	// floats last: where a comparison of floats is decided depends on the indices
	sort.Slice(syms, func(i, j int) bool {
		if a, b := syms[i].sort == SFloat, syms[j].sort == SFloat; a != b {
			return b
		}
		return syms[i].id < syms[j].id
	})
	rng := rand.New(rand.NewSource(seed))
	consts := intConsts(append(append([]*Term{}, assume...), terms...))
	var out []*Valuation
	// assumptions become checkable as soon as their symbols are assigned
	at := make([][]*Term, len(syms)+1)
	pos := map[*Term]int{}
	for i, s := range syms {
		pos[s] = i
	}
	for _, a := range assume {
		last := -1
		for s := range a.syms {
			if pos[s] > last {
				last = pos[s]
			}
		}
		at[last+1] = append(at[last+1], a)
	}
	near, conds := boundaries(append(append([]*Term{}, assume...), terms...))
	cross := make([][]*Term, len(syms))
	crossF := make([][]*Term, len(syms))
	for _, p := range conds {
		if p.op != OFLt && p.op != OFLe && p.op != OFEq {
			continue
		}
		last, known := -1, true
		for s := range p.syms {
			i, ok := pos[s]
			known = known && ok
			if i > last {
				last = i
			}
		}
		if known && last >= 0 && syms[last].sort == SFloat {
			crossF[last] = append(crossF[last], p)
		}
	}
	for _, p := range near {
		last := -1
		for s := range p.syms {
			if i, ok := pos[s]; !ok {
				last = -1
				break
			} else if i > last {
				last = i
			}
		}
		if last >= 0 {
			cross[last] = append(cross[last], p)
		}
	}
	if round > 0 && len(assume) > 0 {
		// what was asked for last is what the search is after
		focus, _ := boundaries(assume[len(assume)-1:])
		for _, p := range focus {
			last := -1
			for s := range p.syms {
				if i, ok := pos[s]; ok && i > last {
					last = i
				}
			}
			if last >= 0 {
				for k := len(cross[last])/3 + 1; k > 0; k-- {
					cross[last] = append(cross[last], p)
				}
			}
		}
	}
	pal := palette(append(append([]*Term{}, assume...), terms...), rng)
	tries := want * 60
	if round > 0 {
		tries = want * 12
	}
	for try := 0; try < tries && len(out) < want; try++ {
		if try%16 == 15 && time.Now().After(until) {
			break
		}
		v := newValuation(rng.Int63())
		v.mode = []int{0, 3, 1, 0, 5, 2, 4, 0, 5}[(len(out)+try/12+round+9)%9]
		v.pal = pal
		if round < 0 {
			v.mode = 7
		}
		if round > 0 && rng.Intn(6) == 0 {
			v.mode = 6
		}
		ok := true
		// assumptions about function values only
		for _, a := range at[0] {
			if r, eok := v.Eval(a); !eok || !r.b {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		var ints []int64
		spread := try%5 < 3
		big := round > 0 && rng.Intn(3) == 0 // several blocks in each direction
		for i, s := range syms {
			good := false
			v.cur, v.scratch = s, map[*Term]Val{}
			for attempt := 0; attempt < 24 && !good; attempt++ {
				switch s.sort {
				case SInt:
					if v.mode == 5 && isSize(s) && rng.Intn(3) > 0 {
						v.set(s, Val{i: int64(2 + rng.Intn(5))})
						break
					}
					x, ok := int64(0), false
					if c := cross[i]; len(c) > 0 && rng.Intn(5) < 2 {
						x, ok = v.crossing(c[rng.Intn(len(c))], s, rng)
					}
					if !ok && big && isSize(s) {
						x, ok = 53+int64(rng.Intn(110)), true
					}
					if !ok || x > 1000 || x < -1000 {
						x = proposeInt(rng, ints, consts, spread || big, isSize(s))
					}
					if tm.nonneg[s] && x < 0 {
						x = -x
					}
					v.set(s, Val{i: x})
				case SFloat:
					x := float64(rng.Intn(4096)-2048) / 256
					if round < 0 && rng.Intn(2) == 0 {
						x = specials[rng.Intn(len(specials))]
					}
					if round > 0 && rng.Intn(4) == 0 {
						x = append([]float64{0, 1, -1, 1.5, 1.25, -2.25}, pal...)[rng.Intn(6+len(pal))]
					}
					if c := crossF[i]; round > 0 && len(c) > 0 && rng.Intn(3) == 0 {
						if y, ok := v.crossingF(c[rng.Intn(len(c))], s); ok {
							x = y + []float64{0, 0, 0.25, -0.25}[rng.Intn(4)]
						}
					}
					v.set(s, Val{f: x})
				case SBool:
					v.set(s, Val{b: rng.Intn(2) == 0})
				}
				good = true
				for _, a := range at[i+1] {
					r, eok := v.Eval(a)
					if !eok || !r.b {
						good = false
						break
					}
				}
			}
			if !good {
				ok = false
				break
			}
			for t, x := range v.scratch {
				v.memo[t] = x
			}
			v.cur, v.scratch = nil, nil
			if s.sort == SInt {
				ints = append(ints, v.syms[s].i)
			}
		}
		v.cur, v.scratch = nil, nil
		if ok {
			v.fuel = 3000000
			out = append(out, v)
		}
	}
	return out
}

var specials = []float64{math.Inf(1), math.NaN(), math.Inf(-1), 0, 1, -1}

func closeEnough(a, b float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	d := math.Abs(a - b)
	return !math.IsInf(d, 0) && d <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

func (v *Valuation) describe(terms ...*Term) string {
	set := map[*Term]bool{}
	for _, t := range terms {
		for s := range t.syms {
			set[s] = true
		}
	}
	var ss []string
	for s := range set {
		if x, ok := v.syms[s]; ok {
			switch s.sort {
			case SInt:
				ss = append(ss, fmt.Sprintf("%s=%d", s.name, x.i))
			case SFloat:
				ss = append(ss, fmt.Sprintf("%s=%g", s.name, x.f))
			case SBool:
				ss = append(ss, fmt.Sprintf("%s=%v", s.name, x.b))
			}
		}
	}
	sort.Strings(ss)
	return strings.Join(ss, " ")
}

// choices are the arbitrary choices (of coarse loops) inside terms.
func choices(ts ...*Term) []string {
	seen := map[*Term]bool{}
	names := map[string]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && t.name == "wild" && t.sort == SBool {
			names[t.args[0].name] = true
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, f := range m.f {
				rec(f)
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
	var res []string
	for n := range names {
		res = append(res, n)
	}
	sort.Strings(res)
	return res
}

// otherwise are variants of a valuation in which some arbitrary choices are taken the other way
// and the assumptions still hold.
func (v *Valuation) otherwise(names []string, assume []*Term, f func(w *Valuation) bool) bool {
	if len(names) > 6 {
		names = names[:6]
	}
	for k := 1; k < 1<<uint(len(names)); k++ {
		w := &Valuation{syms: map[*Term]Val{}, memo: map[*Term]Val{}, seed: v.seed, mode: v.mode, pal: v.pal, fuel: 3000000, flip: map[string]bool{}}
		for s, x := range v.syms {
			w.syms[s] = x
		}
		for i, n := range names {
			if k>>uint(i)&1 == 1 {
				w.flip[n] = true
			}
		}
		good := true
		for _, a := range assume {
			if x, ok := w.Eval(a); !ok || !x.b {
				good = false
				break
			}
		}
		if good && f(w) {
			return true
		}
	}
	return false
}

// hasWild: a term depends on values a coarse loop computed.
func hasWild(ts ...*Term) bool {
	return someTerm(func(t *Term) bool {
		return t.op == OApp && (strings.HasPrefix(t.name, "wild") && t.sort != SBool) || t.op == OSym && t.sort == SAny && wildVer(t.name)
	}, ts...)
}

// hasWildInt: a term depends on an integer variable a coarse loop changed.
func hasWildInt(ts ...*Term) bool {
	return someTerm(func(t *Term) bool { return t.op == OApp && strings.HasPrefix(t.name, "wild") && t.sort == SInt }, ts...)
}

func someTerm(is func(t *Term) bool, ts ...*Term) bool {
	seen := map[*Term]bool{}
	found := false
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] || found {
			return
		}
		seen[t] = true
		if is(t) {
			found = true
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, f := range m.f {
				rec(f)
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return found
}

// permutation: an entry of an arbitrary permutation, or its parity.
func (v *Valuation) permutation(t *Term, vals []Val) Val {
	k := len(vals)
	if t.name == "pver" {
		k--
	}
	n := vals[k-1].i
	if n < 1 || n > 4096 {
		if t.name == "parity" {
			return Val{b: true}
		}
		return vals[k]
	}
	var as []int64
	for _, x := range vals[:k] {
		as = append(as, x.i)
	}
	h := v.hash("permutation", as)
	p := make([]int64, n)
	for i := range p {
		p[i] = int64(i)
	}
	even := true
	exchange := func(i, j uint64) {
		if i != j {
			p[i], p[j] = p[j], p[i]
			even = !even
		}
	}
	switch h >> 40 % 4 {
	case 0:
	case 1:
		exchange(h%uint64(n), h>>20%uint64(n))
	default:
		x := h
		for i := n - 1; i > 0; i-- {
			x = x*6364136223846793005 + 1442695040888963407
			exchange(uint64(i), x>>33%uint64(i+1))
		}
	}
	if t.name == "parity" {
		return Val{b: even}
	}
	if i := vals[k].i; i >= 0 && i < n {
		return Val{i: p[i]}
	}
	return Val{i: 0}
}

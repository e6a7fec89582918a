package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Terms of the value-flow analysis: hash-consed expressions over the inputs of an analysed
// function. Integer and float terms are kept as polynomials over atoms; loops appear as sums,
// folds and bounded quantifiers over bound iteration variables. (This is gated SSA value
// numbering: Ite is the gamma function, Fold/Sum the eta of a mu recurrence.)

type Sort uint8

const (
	SInt Sort = iota
	SFloat
	SBool
	SAny
)

type Op uint8

const (
	OSym Op = iota
	OPoly
	ODiv    // int: truncated division by a positive constant or a term
	OMod    // int remainder
	OMin    // min(0, d), int
	OIte    // c, a, b
	OApp    // name(args): uninterpreted function (input memory, library function, oracle)
	OSum    // bound var, count, body: sum over 0<=b<count
	OFold   // see fold
	OFirst  // bound var, count, cond: least b in [0,count) with cond, else max(count,0)
	OExists // bound var, count, cond
	ORsel   // select from an unsolved region write
	OGe0
	OEq0
	OFLt
	OFLe
	OFEq
	OAnd
	OOr
	ONot
	OTrue
	OFalse
	OFromInt
	OFDiv
	OUnk // unknown value (analysis gave up); never equal to anything
)

type Mono struct {
	c float64
	f []*Term
}

type Term struct {
	op    Op
	sort  Sort
	name  string
	args  []*Term
	monos []Mono
	id    int
	depth int // nesting depth of binders
	size  int
	unk   bool
	syms  map[*Term]bool // free symbols
	neg   *Term          // memoised negation
}

type Terms struct {
	plans   map[*Term][]rselStep
	facts   map[proveKey]*Facts
	intOnly map[*Term]bool
	ground  []*Valuation
	effort  int // steps spent on witnesses
	tab     map[string]*Term
	list    []*Term
	fresh   int
	subst   map[string]*Term // symbol name -> replacement (equalities assumed by a specification)
	nonneg  map[*Term]bool
}

var tm = newTerms()

func newTerms() *Terms {
	return &Terms{tab: map[string]*Term{}, subst: map[string]*Term{}, nonneg: map[*Term]bool{}, plans: map[*Term][]rselStep{}, facts: map[proveKey]*Facts{}, intOnly: map[*Term]bool{}}
}

func mk(op Op, srt Sort, name string, args []*Term, monos []Mono) *Term {
	var sb strings.Builder
	sb.WriteByte('a' + byte(op))
	sb.WriteByte('0' + byte(srt))
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, m := range monos {
		sb.WriteByte('+')
		sb.WriteString(strconv.FormatFloat(m.c, 'g', -1, 64))
		for _, f := range m.f {
			sb.WriteByte('*')
			sb.WriteString(strconv.Itoa(f.id))
		}
	}
	k := sb.String()
	if t, ok := tm.tab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: srt, name: name, args: args, monos: monos, id: len(tm.list), size: 1}
	shared := true // t.syms belongs to a child (or is the empty set)
	own := func() {
		if !shared {
			return
		}
		n := make(map[*Term]bool, len(t.syms)+1)
		for s := range t.syms {
			n[s] = true
		}
		t.syms, shared = n, false
	}
	kid := func(a *Term) {
		if a.depth > t.depth {
			t.depth = a.depth
		}
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
		if a.unk {
			t.unk = true
		}
		if len(a.syms) == 0 {
			return
		}
		if len(t.syms) == 0 {
			t.syms, shared = a.syms, true
			return
		}
		for s := range a.syms {
			if !t.syms[s] {
				own()
				t.syms[s] = true
			}
		}
	}
	for _, a := range args {
		kid(a)
	}
	for _, m := range monos {
		for _, f := range m.f {
			kid(f)
		}
	}
	switch op {
	case OSym:
		own()
		t.syms[t] = true
	case OUnk:
		t.unk = true
	case OSum, OFirst, OExists:
		own()
		delete(t.syms, args[0])
		t.depth++
	case OFold:
		n := (len(args) - 2) / 3
		own()
		delete(t.syms, args[0])
		for i := 0; i < n; i++ {
			delete(t.syms, args[2+i])
		}
		t.depth++
	case ORsel:
		t.depth++
	}
	tm.tab[k] = t
	tm.list = append(tm.list, t)
	return t
}

func Sym(name string, s Sort) *Term {
	if r, ok := tm.subst[name]; ok {
		return r
	}
	return mk(OSym, s, name, nil, nil)
}

func FreshSym(hint string, s Sort) *Term {
	tm.fresh++
	return mk(OSym, s, fmt.Sprintf("%s'%d", hint, tm.fresh), nil, nil)
}

func Unk(s Sort, why string) *Term { return mk(OUnk, s, why, nil, nil) }

var (
	tTrue  = mk(OTrue, SBool, "", nil, nil)
	tFalse = mk(OFalse, SBool, "", nil, nil)
)

func resetTerms() {
	tm = newTerms()
	proveMemo = map[proveKey]bool{}
	tTrue = mk(OTrue, SBool, "", nil, nil)
	tFalse = mk(OFalse, SBool, "", nil, nil)
}

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// ---- polynomials

func polyOf(t *Term) []Mono {
	if t.op == OPoly {
		return t.monos
	}
	return []Mono{{1, []*Term{t}}}
}

func monoKey(f []*Term) string {
	var sb strings.Builder
	for _, x := range f {
		sb.WriteString(strconv.Itoa(x.id))
		sb.WriteByte('*')
	}
	return sb.String()
}

func lessMono(a, b []*Term) bool {
	if len(a) != len(b) {
		return len(a) > len(b)
	}
	for i := range a {
		if a[i].id != b[i].id {
			return a[i].id < b[i].id
		}
	}
	return false
}

func mkPoly(s Sort, ms []Mono) *Term {
	acc := map[string]int{}
	var out []Mono
	for _, m := range ms {
		k := monoKey(m.f)
		if i, ok := acc[k]; ok {
			out[i].c += m.c
		} else {
			acc[k] = len(out)
			out = append(out, Mono{m.c, m.f})
		}
	}
	n := out[:0]
	for _, m := range out {
		if m.c != 0 {
			n = append(n, m)
		}
	}
	out = n
	sort.Slice(out, func(i, j int) bool { return lessMono(out[i].f, out[j].f) })
	if len(out) == 1 && out[0].c == 1 && len(out[0].f) == 1 {
		return out[0].f[0]
	}
	return mk(OPoly, s, "", nil, out)
}

func Num(s Sort, c float64) *Term {
	if c == 0 {
		return mk(OPoly, s, "", nil, nil)
	}
	return mk(OPoly, s, "", nil, []Mono{{c, nil}})
}
func Int(c int64) *Term { return Num(SInt, float64(c)) }
func Flt(c float64) *Term {
	if math.IsNaN(c) || math.IsInf(c, 0) {
		return mk(OApp, SFloat, fmt.Sprintf("const:%v", c), nil, nil)
	}
	return Num(SFloat, c)
}

// constant reports the value of a constant term.
func constantT(t *Term) (float64, bool) {
	if t.op == OPoly {
		if len(t.monos) == 0 {
			return 0, true
		}
		if len(t.monos) == 1 && len(t.monos[0].f) == 0 {
			return t.monos[0].c, true
		}
	}
	return 0, false
}

func isConst(t *Term, c float64) bool { v, ok := constantT(t); return ok && v == c }

func Add(a, b *Term) *Term {
	ms := append(append([]Mono{}, polyOf(a)...), polyOf(b)...)
	return mkPoly(a.sort, ms)
}

func Scale(a *Term, c float64) *Term {
	var ms []Mono
	for _, m := range polyOf(a) {
		ms = append(ms, Mono{m.c * c, m.f})
	}
	return mkPoly(a.sort, ms)
}

func Sub(a, b *Term) *Term { return Add(a, Scale(b, -1)) }

func AddC(a *Term, c int64) *Term { return Add(a, Num(a.sort, float64(c))) }

func mergeFactors(a, b []*Term) []*Term {
	out := append(append([]*Term{}, a...), b...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func Mul(a, b *Term) *Term {
	pa, pb := polyOf(a), polyOf(b)
	if len(pa)*len(pb) > 64 {
		// too large to expand: keep the larger factors opaque
		return mkPoly(a.sort, []Mono{{1, mergeFactors([]*Term{box(a)}, []*Term{box(b)})}})
	}
	var ms []Mono
	for _, x := range pa {
		for _, y := range pb {
			ms = append(ms, Mono{x.c * y.c, mergeFactors(x.f, y.f)})
		}
	}
	return mkPoly(a.sort, ms)
}

// box wraps a polynomial so that it can be a factor.
func box(t *Term) *Term {
	if t.op != OPoly {
		return t
	}
	return mk(OApp, t.sort, "id", []*Term{t}, nil)
}

// DivInt is Go's truncated integer division.
func DivInt(a, b *Term) *Term {
	ca, oka := constantT(a)
	cb, okb := constantT(b)
	if oka && okb && cb != 0 {
		return Int(int64(ca) / int64(cb))
	}
	if okb && cb == 1 {
		return a
	}
	return mk(ODiv, SInt, "", []*Term{a, b}, nil)
}

func ModInt(a, b *Term) *Term {
	ca, oka := constantT(a)
	cb, okb := constantT(b)
	if oka && okb && cb != 0 {
		return Int(int64(ca) % int64(cb))
	}
	// a % b = a - b*(a/b) in Go for every sign
	return Sub(a, Mul(b, DivInt(a, b)))
}

// MinI: min(a, b) is kept in the normal form a + min(0, b-a); the atom OMin has the single
// argument d and means min(0, d). Maxima are expressed with it.
func MinI(a, b *Term) *Term {
	d := Sub(b, a)
	if c, ok := constantT(d); ok {
		if c >= 0 {
			return a
		}
		return b
	}
	if synNonneg(d) {
		return a
	}
	if synNonneg(Scale(d, -1)) {
		return b
	}
	if polyOf(d)[0].c < 0 {
		a, d = b, Scale(d, -1)
	}
	return Add(a, mk(OMin, SInt, "", []*Term{d}, nil))
}

func MaxI(a, b *Term) *Term { return Sub(Add(a, b), MinI(a, b)) }

// synNonneg: every monomial has a nonnegative coefficient and nonnegative factors.
func synNonneg(t *Term) bool {
	for _, m := range polyOf(t) {
		if m.c < 0 {
			return false
		}
		for _, f := range m.f {
			if !atomNonneg(f) {
				return false
			}
		}
	}
	return true
}

func atomNonneg(f *Term) bool {
	if tm.nonneg[f] {
		return true
	}
	switch f.op {
	case ODiv:
		return synNonneg(f.args[0]) && synNonneg(f.args[1])
	case OFirst, OSum:
		return f.op == OFirst
	case OIte:
		return synNonneg(f.args[1]) && synNonneg(f.args[2])
	case OApp:
		return f.name == "wildlo" && synNonneg(f.args[1])
	}
	return false
}

func FromInt(a *Term) *Term {
	if c, ok := constantT(a); ok {
		return Flt(c)
	}
	return mk(OFromInt, SFloat, "", []*Term{a}, nil)
}

// ToInt converts a float term to int when it is known to hold an integer.
func ToInt(a *Term) *Term {
	if a.op == OFromInt {
		return a.args[0]
	}
	if c, ok := constantT(a); ok {
		return Int(int64(c))
	}
	// a polynomial with integer coefficients over integers
	ok := true
	sum := Int(0)
	for _, m := range polyOf(a) {
		if m.c != math.Trunc(m.c) {
			ok = false
			break
		}
		p := Num(SInt, m.c)
		for _, f := range m.f {
			if f.op != OFromInt {
				ok = false
				break
			}
			p = Mul(p, f.args[0])
		}
		sum = Add(sum, p)
	}
	if ok {
		return sum
	}
	if a.op == OIte {
		return Ite(a.args[0], ToInt(a.args[1]), ToInt(a.args[2]))
	}
	return mk(OApp, SInt, "trunc", []*Term{a}, nil)
}

func FDiv(a, b *Term) *Term {
	if c, ok := constantT(b); ok && c != 0 {
		if ca, ok := constantT(a); ok {
			return Flt(ca / c)
		}
		if c == 1 {
			return a
		}
	}
	if isConst(a, 0) {
		// 0/x is 0 or NaN; kept
	}
	return mk(OFDiv, SFloat, "", []*Term{a, b}, nil)
}

func App(name string, s Sort, args ...*Term) *Term { return mk(OApp, s, name, args, nil) }

// ---- booleans

func gcdF(a, b float64) float64 {
	a, b = math.Abs(a), math.Abs(b)
	for b != 0 {
		a, b = b, math.Mod(a, b)
	}
	return a
}

// Ge0 is the constraint p >= 0 over integers.
func Ge0(p *Term) *Term {
	if c, ok := constantT(p); ok {
		return Bool(c >= 0)
	}
	g := 0.0
	for _, m := range polyOf(p) {
		if len(m.f) > 0 {
			g = gcdF(g, m.c)
		}
	}
	if g > 1 {
		var ms []Mono
		for _, m := range polyOf(p) {
			if len(m.f) > 0 {
				ms = append(ms, Mono{m.c / g, m.f})
			} else {
				ms = append(ms, Mono{math.Floor(m.c / g), nil})
			}
		}
		p = mkPoly(SInt, ms)
	}
	return mk(OGe0, SBool, "", []*Term{p}, nil)
}

func Eq0(p *Term) *Term {
	if c, ok := constantT(p); ok {
		return Bool(c == 0)
	}
	g, c0 := 0.0, 0.0
	for _, m := range polyOf(p) {
		if len(m.f) > 0 {
			g = gcdF(g, m.c)
		} else {
			c0 = m.c
		}
	}
	if math.Mod(c0, g) != 0 {
		return tFalse
	}
	if polyOf(p)[0].c < 0 {
		g = -g
	}
	p = Scale(p, 1/g)
	if ms := polyOf(p); len(ms) == 2 && ms[0].c == -ms[1].c && len(ms[0].f) == 1 && len(ms[1].f) == 1 {
		// equal entries of a permutation are the same entry
		if a, b := ms[0].f[0], ms[1].f[0]; a.op == OApp && a.name == "pver" && b.op == OApp && b.name == "pver" && len(a.args) == len(b.args) {
			k := len(a.args) - 1
			same := true
			for i := 0; i < k; i++ {
				same = same && a.args[i] == b.args[i]
			}
			if same {
				return Eq(a.args[k], b.args[k])
			}
		}
	}
	if p.op == OIte && p.sort == SInt {
		return Ite(p.args[0], Eq0(p.args[1]), Eq0(p.args[2]))
	}
	return mk(OEq0, SBool, "", []*Term{p}, nil)
}

func Lt(a, b *Term) *Term { return Ge0(AddC(Sub(b, a), -1)) }
func Le(a, b *Term) *Term { return Ge0(Sub(b, a)) }
func Eq(a, b *Term) *Term { return Eq0(Sub(a, b)) }

func Not(a *Term) *Term {
	if a.neg == nil {
		n := not(a)
		a.neg = n
		if n.neg == nil {
			n.neg = not(n)
		}
	}
	return a.neg
}

func not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return a.args[0]
	case OGe0:
		return Ge0(AddC(Scale(a.args[0], -1), -1))
	case OAnd:
		var xs []*Term
		for _, x := range a.args {
			xs = append(xs, Not(x))
		}
		return Or(xs...)
	case OOr:
		var xs []*Term
		for _, x := range a.args {
			xs = append(xs, Not(x))
		}
		return And(xs...)
	}
	return mk(ONot, SBool, "", []*Term{a}, nil)
}

func nary(op Op, unit, zero *Term, xs []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x] {
			return true
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	// absorption: x & (x | y) = x ; x & (!x | y) = x & y
	dual := OOr
	if op == OOr {
		dual = OAnd
	}
	changed := false
	n := out[:0:0]
	for _, x := range out {
		if x.op == dual {
			drop := false
			var keep []*Term
			for _, y := range x.args {
				if seen[y] {
					drop = true
				}
				if !seen[Not(y)] {
					keep = append(keep, y)
				}
			}
			if drop {
				changed = true
				continue
			}
			if len(keep) != len(x.args) {
				changed = true
				if dual == OOr {
					n = append(n, Or(keep...))
				} else {
					n = append(n, And(keep...))
				}
				continue
			}
		}
		n = append(n, x)
	}
	if changed {
		return nary(op, unit, zero, n)
	}
	out = n
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(op, SBool, "", out, nil)
}

func And(xs ...*Term) *Term { return nary(OAnd, tTrue, tFalse, xs) }
func Or(xs ...*Term) *Term {
	r := nary(OOr, tFalse, tTrue, xs)
	if r.op == OOr && len(r.args) >= 2 {
		// (a & x) | (a & !x) = a
		for i := 0; i < len(r.args); i++ {
			for j := i + 1; j < len(r.args); j++ {
				if m, ok := resolve(r.args[i], r.args[j]); ok {
					var rest []*Term
					for k, x := range r.args {
						if k != i && k != j {
							rest = append(rest, x)
						}
					}
					return Or(append(rest, m)...)
				}
			}
		}
	}
	return r
}

func conjuncts(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

// resolve merges two conjunctions that differ in the sign of one conjunct.
func resolve(a, b *Term) (*Term, bool) {
	ca, cb := conjuncts(a), conjuncts(b)
	if len(ca) != len(cb) {
		return nil, false
	}
	inb := map[*Term]bool{}
	for _, x := range cb {
		inb[x] = true
	}
	var common []*Term
	var odd *Term
	for _, x := range ca {
		if inb[x] {
			common = append(common, x)
		} else if odd == nil && inb[Not(x)] {
			odd = x
		} else {
			return nil, false
		}
	}
	if odd == nil || len(common) != len(ca)-1 {
		return nil, false
	}
	return And(common...), true
}

func FLt(a, b *Term) *Term {
	if a.op == OFromInt && b.op == OFromInt {
		return Lt(a.args[0], b.args[0])
	}
	if ca, ok := constantT(a); ok {
		if cb, ok := constantT(b); ok {
			return Bool(ca < cb)
		}
		if b.op == OFromInt && ca == math.Trunc(ca) {
			return Lt(Int(int64(ca)), b.args[0])
		}
	}
	if cb, ok := constantT(b); ok && a.op == OFromInt && cb == math.Trunc(cb) {
		return Lt(a.args[0], Int(int64(cb)))
	}
	if a == b {
		return tFalse
	}
	return mk(OFLt, SBool, "", []*Term{a, b}, nil)
}
func FLe(a, b *Term) *Term {
	if a.op == OFromInt && b.op == OFromInt {
		return Le(a.args[0], b.args[0])
	}
	if ca, ok := constantT(a); ok {
		if cb, ok := constantT(b); ok {
			return Bool(ca <= cb)
		}
	}
	return mk(OFLe, SBool, "", []*Term{a, b}, nil)
}
func FEq(a, b *Term) *Term {
	if ca, ok := constantT(a); ok {
		if cb, ok := constantT(b); ok {
			return Bool(ca == cb)
		}
	}
	if a.op == OFromInt && b.op == OFromInt {
		return Eq(a.args[0], b.args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OFEq, SBool, "", []*Term{a, b}, nil)
}

func Ite(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a == tTrue {
			return Or(c, b)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
		if b == tFalse {
			return And(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if a.op == OIte && a.args[2] == b {
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	return mk(OIte, a.sort, "", []*Term{c, a, b}, nil)
}

// ---- binders

func betaSym(depth int, s Sort, i int) *Term {
	return mk(OSym, s, fmt.Sprintf("β%d.%d", depth, i), nil, nil)
}

func isBeta(t *Term) bool { return t.op == OSym && strings.HasPrefix(t.name, "β") }

// Sum over 0 <= b < n of body.
func Sum(b, n, body *Term) *Term {
	if c, ok := constantT(n); ok && c <= 0 {
		return Num(body.sort, 0)
	}
	if isConst(body, 0) {
		return body
	}
	if body.op == OPoly && len(body.monos) > 1 {
		r := Num(body.sort, 0)
		for _, m := range body.monos {
			r = Add(r, Sum(b, n, mkPoly(body.sort, []Mono{m})))
		}
		return r
	}
	// pull out factors that do not depend on b
	if body.op == OPoly && len(body.monos) == 1 {
		m := body.monos[0]
		var in, out []*Term
		for _, f := range m.f {
			if f.syms[b] {
				in = append(in, f)
			} else {
				out = append(out, f)
			}
		}
		if m.c != 1 || len(out) > 0 {
			inner := Num(body.sort, 1)
			if len(in) > 0 {
				inner = mkPoly(body.sort, []Mono{{1, in}})
			}
			return Mul(mkPoly(body.sort, []Mono{{m.c, out}}), Sum(b, n, inner))
		}
	}
	if !body.syms[b] {
		cnt := MaxI(Int(0), n)
		if body.sort == SFloat {
			return Mul(FromInt(cnt), body)
		}
		return Mul(cnt, body)
	}
	if c, ok := constantT(n); ok && c == 1 {
		return subst1(body, b, Int(0))
	}
	if e, ok := kronecker(b, body); ok {
		return Ite(And(Ge0(e), Lt(e, n)), subst1(body, b, e), Num(body.sort, 0))
	}
	if body.sort == SInt && body == b {
		// sum of 0..n-1
		if c, ok := constantT(n); ok {
			return Int(int64(c) * (int64(c) - 1) / 2)
		}
	}
	bb := betaSym(body.depth, SInt, 0)
	return mk(OSum, body.sort, "", []*Term{bb, n, subst1(body, b, bb)}, nil)
}

// kronecker recognises a summand that vanishes except where b equals a term.
func kronecker(b, body *Term) (*Term, bool) {
	fs := []*Term{body}
	if body.op == OPoly && len(body.monos) == 1 {
		fs = body.monos[0].f
	}
	for _, f := range fs {
		if f.op != OIte || !isConst(f.args[2], 0) {
			continue
		}
		for _, c := range conjuncts(f.args[0]) {
			if c.op != OEq0 {
				continue
			}
			co, rest := 0.0, Int(0)
			lin := true
			for _, m := range polyOf(c.args[0]) {
				if len(m.f) == 1 && m.f[0] == b {
					co = m.c
					continue
				}
				for _, x := range m.f {
					if x.syms[b] {
						lin = false
					}
				}
				rest = Add(rest, mkPoly(SInt, []Mono{m}))
			}
			if lin && (co == 1 || co == -1) {
				return Scale(rest, -co), true
			}
		}
	}
	return nil, false
}

func First(b, n, cond *Term) *Term {
	if cond == tFalse {
		return MaxI(Int(0), n)
	}
	if cond == tTrue {
		return Int(0)
	}
	bb := betaSym(cond.depth, SInt, 0)
	return mk(OFirst, SInt, "", []*Term{bb, n, subst1(cond, b, bb)}, nil)
}

func Exists(b, n, cond *Term) *Term {
	if cond == tFalse {
		return tFalse
	}
	if c, ok := constantT(n); ok {
		if c <= 0 {
			return tFalse
		}
		if c == 1 {
			return subst1(cond, b, Int(0))
		}
	}
	if !cond.syms[b] {
		return And(Ge0(AddC(n, -1)), cond)
	}
	if cond.op == OAnd {
		var in, out []*Term
		for _, x := range cond.args {
			if x.syms[b] {
				in = append(in, x)
			} else {
				out = append(out, x)
			}
		}
		if len(out) > 0 {
			return And(And(out...), Exists(b, n, And(in...)))
		}
	}
	if cond.op == OOr {
		var xs []*Term
		for _, x := range cond.args {
			xs = append(xs, Exists(b, n, x))
		}
		return Or(xs...)
	}
	bb := betaSym(cond.depth, SInt, 0)
	return mk(OExists, SBool, "", []*Term{bb, n, subst1(cond, b, bb)}, nil)
}

// Fold: the value of component which after n iterations of the simultaneous recurrence
// phi_i := upd_i(b, phi), phi_i starting at init_i.
// args: b, n, phi..., init..., upd...; name is the component index.
func Fold(b, n *Term, phi, init, upd []*Term, which int) *Term {
	if r := foldExists(b, n, phi, init[which], upd[which], phi[which]); r != nil {
		return r
	}
	d := 0
	for _, u := range upd {
		if u.depth > d {
			d = u.depth
		}
	}
	sub := map[*Term]*Term{b: betaSym(d, SInt, 0)}
	args := []*Term{sub[b], n}
	for i, p := range phi {
		sub[p] = betaSym(d, p.sort, i+1)
		args = append(args, sub[p])
	}
	args = append(args, init...)
	for _, u := range upd {
		args = append(args, subst(u, sub))
	}
	return mk(OFold, init[which].sort, strconv.Itoa(which), args, nil)
}

// foldExists recognises a variable that some iterations set to one fixed value and the others
// leave alone.
func foldExists(b, n *Term, phi []*Term, init, upd, p *Term) *Term {
	free := func(t *Term) bool {
		for _, q := range phi {
			if t.syms[q] {
				return false
			}
		}
		return true
	}
	var c, val *Term
	switch {
	case (upd.op == OAnd || upd.op == OOr) && p.sort == SBool:
		var rest []*Term
		has := false
		for _, a := range upd.args {
			if a == p {
				has = true
			} else {
				rest = append(rest, a)
			}
		}
		if !has {
			return nil
		}
		if upd.op == OAnd {
			c, val = Not(And(rest...)), tFalse
		} else {
			c, val = Or(rest...), tTrue
		}
	case upd.op == OIte && upd.args[1] == p:
		c, val = Not(upd.args[0]), upd.args[2]
	case upd.op == OIte && upd.args[2] == p:
		c, val = upd.args[0], upd.args[1]
	default:
		return nil
	}
	if !free(c) || !free(val) || val.syms[b] {
		return nil
	}
	return Ite(Exists(b, n, c), val, init)
}

func foldParts(t *Term) (b, n *Term, phi, init, upd []*Term) {
	k := (len(t.args) - 2) / 3
	return t.args[0], t.args[1], t.args[2 : 2+k], t.args[2+k : 2+2*k], t.args[2+2*k:]
}

func subst1(t, v, r *Term) *Term { return subst(t, map[*Term]*Term{v: r}) }

func subst(t *Term, m map[*Term]*Term) *Term {
	return substM(t, m, map[*Term]*Term{})
}

func hasAny(t *Term, m map[*Term]*Term) bool {
	if len(m) < len(t.syms) {
		for v := range m {
			if t.syms[v] {
				return true
			}
		}
		return false
	}
	for s := range t.syms {
		if _, ok := m[s]; ok {
			return true
		}
	}
	return false
}

func substM(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if !hasAny(t, m) {
		return t
	}
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := rebuild(t, func(x *Term) *Term { return substM(x, m, memo) })
	memo[t] = r
	return r
}

// rebuild reconstructs t with f applied to its children, re-normalising on the way.
func rebuild(t *Term, f func(*Term) *Term) *Term {
	a := func(i int) *Term { return f(t.args[i]) }
	switch t.op {
	case OSym, OTrue, OFalse, OUnk:
		return t
	case OPoly:
		r := Num(t.sort, 0)
		var acc []Mono
		for _, m := range t.monos {
			same := true
			fs := make([]*Term, len(m.f))
			for i, x := range m.f {
				fs[i] = f(x)
				if fs[i] != x {
					same = false
				}
			}
			if same {
				acc = append(acc, m)
				continue
			}
			p := Num(t.sort, m.c)
			for _, x := range fs {
				p = Mul(p, x)
			}
			acc = append(acc, polyOf(p)...)
		}
		_ = r
		return mkPoly(t.sort, acc)
	case ODiv:
		return simpDiv(a(0), a(1))
	case OMod:
		return ModInt(a(0), a(1))
	case OMin:
		return MinI(Int(0), a(0))
	case OIte:
		c := a(0)
		if c == tTrue {
			return a(1)
		}
		if c == tFalse {
			return a(2)
		}
		return Ite(c, a(1), a(2))
	case OApp:
		args := make([]*Term, len(t.args))
		for i := range t.args {
			args[i] = a(i)
		}
		if t.name == "id" {
			return args[0]
		}
		if t.name == "ulpeq" {
			return ulpEq(args[0], args[1], args[2])
		}
		return App(t.name, t.sort, args...)
	case OSum:
		// the bound variable is opened with a fresh symbol so that re-normalisation stays valid
		v := FreshSym("s", SInt)
		body := subst1(t.args[2], t.args[0], v)
		return Sum(v, a(1), f(body))
	case OFirst:
		v := FreshSym("s", SInt)
		body := subst1(t.args[2], t.args[0], v)
		return First(v, a(1), f(body))
	case OExists:
		v := FreshSym("s", SInt)
		body := subst1(t.args[2], t.args[0], v)
		return Exists(v, a(1), f(body))
	case OFold:
		b, _, phi, init, upd := foldParts(t)
		v := FreshSym("s", SInt)
		sub := map[*Term]*Term{b: v}
		var nphi, ninit, nupd []*Term
		for _, p := range phi {
			q := FreshSym("p", p.sort)
			sub[p] = q
			nphi = append(nphi, q)
		}
		for _, x := range init {
			ninit = append(ninit, f(x))
		}
		for _, u := range upd {
			nupd = append(nupd, f(subst(u, sub)))
		}
		w, _ := strconv.Atoi(t.name)
		return Fold(v, a(1), nphi, ninit, nupd, w)
	case ORsel:
		bs, ns, guard, eqs, val, els := rselParts(t)
		sub := map[*Term]*Term{}
		var nb, nn, ne []*Term
		for _, b := range bs {
			v := FreshSym("s", SInt)
			sub[b] = v
			nb = append(nb, v)
		}
		for _, n := range ns {
			nn = append(nn, f(subst(n, sub)))
		}
		for _, e := range eqs {
			ne = append(ne, f(subst(e, sub)))
		}
		return Rsel(nb, nn, f(subst(guard, sub)), ne, f(subst(val, sub)), f(els))
	case OGe0:
		return Ge0(a(0))
	case OEq0:
		return Eq0(a(0))
	case OFLt:
		return FLt(a(0), a(1))
	case OFLe:
		return FLe(a(0), a(1))
	case OFEq:
		return FEq(a(0), a(1))
	case OAnd, OOr:
		args := make([]*Term, len(t.args))
		for i := range t.args {
			args[i] = a(i)
		}
		if t.op == OAnd {
			return And(args...)
		}
		return Or(args...)
	case ONot:
		return Not(a(0))
	case OFromInt:
		return FromInt(a(0))
	case OFDiv:
		return FDiv(a(0), a(1))
	}
	panic(fmt.Sprintf("rebuild: op %d", t.op))
}

// simpDiv re-normalises a division after substitution: (c*q + r)/c.
func simpDiv(a, b *Term) *Term { return DivInt(a, b) }

// ---- printing

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	return show(t, 0)
}

func show(t *Term, d int) string {
	if d > 9 {
		return "…"
	}
	list := func(xs []*Term, sep string) string {
		var ss []string
		for _, x := range xs {
			ss = append(ss, show(x, d+1))
		}
		return strings.Join(ss, sep)
	}
	switch t.op {
	case OSym:
		return t.name
	case OPoly:
		if len(t.monos) == 0 {
			return "0"
		}
		var sb strings.Builder
		for i, m := range t.monos {
			c := m.c
			if i > 0 {
				if c < 0 {
					sb.WriteString(" - ")
					c = -c
				} else {
					sb.WriteString(" + ")
				}
			} else if c < 0 {
				sb.WriteString("-")
				c = -c
			}
			if len(m.f) == 0 || c != 1 {
				sb.WriteString(strconv.FormatFloat(c, 'g', -1, 64))
				if len(m.f) > 0 {
					sb.WriteString("·")
				}
			}
			sb.WriteString(list(m.f, "·"))
		}
		if d > 0 && len(t.monos) > 1 {
			return "(" + sb.String() + ")"
		}
		return sb.String()
	case ODiv:
		return "(" + list(t.args, "/") + ")"
	case OMin:
		return "min(0, " + list(t.args, ", ") + ")"
	case OIte:
		return "(" + show(t.args[0], d+1) + " ? " + show(t.args[1], d+1) + " : " + show(t.args[2], d+1) + ")"
	case OApp:
		return t.name + "(" + list(t.args, ", ") + ")"
	case OSum:
		return "Σ{" + show(t.args[0], d+1) + "<" + show(t.args[1], d+1) + "} " + show(t.args[2], d+1)
	case OFirst:
		return "first{" + show(t.args[0], d+1) + "<" + show(t.args[1], d+1) + "} " + show(t.args[2], d+1)
	case OExists:
		return "∃{" + show(t.args[0], d+1) + "<" + show(t.args[1], d+1) + "} " + show(t.args[2], d+1)
	case OFold:
		return "fold" + t.name + "(" + list(t.args, "; ") + ")"
	case OGe0:
		return show(t.args[0], d+1) + ">=0"
	case OEq0:
		return show(t.args[0], d+1) + "==0"
	case OFLt:
		return "(" + list(t.args, " < ") + ")"
	case OFLe:
		return "(" + list(t.args, " <= ") + ")"
	case OFEq:
		return "(" + list(t.args, " == ") + ")"
	case OAnd:
		return "(" + list(t.args, " & ") + ")"
	case OOr:
		return "(" + list(t.args, " | ") + ")"
	case ONot:
		return "!" + show(t.args[0], d+1)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OFromInt:
		return "float(" + show(t.args[0], d+1) + ")"
	case OFDiv:
		return "(" + list(t.args, " ÷ ") + ")"
	case OUnk:
		return "?" + t.name
	case ORsel:
		return "rsel(" + t.name + ";" + list(t.args, ", ") + ")"
	}
	return fmt.Sprintf("op%d", t.op)
}

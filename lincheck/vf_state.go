package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
)

// Values of the value-flow analysis.
type Value interface{}

type (
	// SliceV is a slice: elements obj[oidx][off .. off+len).
	SliceV struct {
		obj  *VObj
		oidx []*Term
		off  *Term
		len  *Term
		cap  *Term
		isn  *Term // nil-ness
	}
	// PtrV points to a place.
	PtrV struct{ pl Place }
	NilV struct{}
	// IfaceV is a non-nil interface value with its dynamic type.
	IfaceV struct {
		dyn types.Type
		v   Value
	}
	FuncV struct {
		decl *types.Func  // package function
		recv Value        // bound receiver
		lit  *ast.FuncLit // function literal
		env  *frame       // environment of the literal
		sym  string       // symbolic function (uninterpreted)
		std  *types.Func  // library function
	}
	StructV struct {
		typ types.Type
		f   []Value
	}
	StrV  struct{ s string }
	CondV struct {
		c    *Term
		a, b Value
	}
	TupleV []Value
	UnkV   struct{ why string }
)

// Place is an addressable location.
type Place struct {
	cell *Cell
	obj  *VObj
	oidx []*Term
	idx  *Term // nil: the whole struct object
	path []int
}

type Cell struct {
	key string
	typ types.Type
}

// VObj is a memory object (an array or a struct), or a family of them indexed by the iteration
// variables of the loops it was allocated in.
type VObj struct {
	key  string
	typ  types.Type // element type, or struct type
	pre  bool       // an input: existed before the analysed call
	init func(oidx []*Term, idx *Term) Value
	born []string // the loops it is allocated in
}

type binder struct{ v, n *Term }

// Region is a (possibly quantified) write: for all binders in range with guard: obj[oidx][idx] = val.
type Region struct {
	bs    []binder
	guard *Term
	oidx  []*Term
	idx   *Term
	val   Value
	acc   bool // val is added to the previous content
	pos   string
}

type Content struct {
	ver    string  // non-empty: version symbol of a loop-carried array
	vargs  []*Term // the iterations the version belongs to
	havoc  bool
	gen    *SliceV    // the elements are some rows of this family
	perm   *Term      // a versioned array is a permutation of 0..perm-1
	alt    []*Content // what two paths that come together left, one of which is taken when altc holds
	altc   *Term
	ord    *Term // a versioned array is in decreasing order (its length)
	permNo bool  // a versioned array is known not to be a permutation
	lvl    int   // loops outside this level do not see reads through this log
	regs   []*Region
}

type State struct {
	vars  map[*Cell]Value
	mem   map[*VObj]*Content
	live  *Term
	facts *Facts
}

func (s *State) clone() *State {
	n := &State{vars: make(map[*Cell]Value, len(s.vars)), mem: make(map[*VObj]*Content, len(s.mem)), live: s.live, facts: s.facts}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	return n
}

func (s *State) dead() bool { return s.live == tFalse }

func substTerms(ts []*Term, m map[*Term]*Term) []*Term {
	if len(ts) == 0 {
		return ts
	}
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = subst(t, m)
	}
	return out
}

func substPlace(p Place, m map[*Term]*Term) Place {
	p.oidx = substTerms(p.oidx, m)
	if p.idx != nil {
		p.idx = subst(p.idx, m)
	}
	return p
}

func substV(v Value, m map[*Term]*Term) Value {
	switch x := v.(type) {
	case *Term:
		return subst(x, m)
	case SliceV:
		x.oidx = substTerms(x.oidx, m)
		x.off, x.len, x.cap, x.isn = subst(x.off, m), subst(x.len, m), subst(x.cap, m), subst(x.isn, m)
		return x
	case PtrV:
		return PtrV{substPlace(x.pl, m)}
	case IfaceV:
		return IfaceV{x.dyn, substV(x.v, m)}
	case FuncV:
		if x.recv != nil {
			x.recv = substV(x.recv, m)
		}
		return x
	case StructV:
		f := make([]Value, len(x.f))
		for i := range x.f {
			f[i] = substV(x.f[i], m)
		}
		return StructV{x.typ, f}
	case CondV:
		return mkCond(subst(x.c, m), substV(x.a, m), substV(x.b, m))
	case TupleV:
		f := make(TupleV, len(x))
		for i := range x {
			f[i] = substV(x[i], m)
		}
		return f
	}
	return v
}

// valTerms visits every term in a value.
func valTerms(v Value, f func(*Term)) {
	switch x := v.(type) {
	case *Term:
		f(x)
	case SliceV:
		for _, t := range x.oidx {
			f(t)
		}
		f(x.off)
		f(x.len)
		f(x.isn)
	case PtrV:
		for _, t := range x.pl.oidx {
			f(t)
		}
		if x.pl.idx != nil {
			f(x.pl.idx)
		}
	case IfaceV:
		valTerms(x.v, f)
	case FuncV:
		if x.recv != nil {
			valTerms(x.recv, f)
		}
	case StructV:
		for _, y := range x.f {
			valTerms(y, f)
		}
	case CondV:
		f(x.c)
		valTerms(x.a, f)
		valTerms(x.b, f)
	case TupleV:
		for _, y := range x {
			valTerms(y, f)
		}
	}
}

func valUnk(v Value) bool {
	r := false
	var rec func(v Value)
	rec = func(v Value) {
		switch x := v.(type) {
		case UnkV:
			r = true
		case *Term:
			if x.unk {
				r = true
			}
		case SliceV:
			if x.off.unk || x.len.unk {
				r = true
			}
			for _, t := range x.oidx {
				if t.unk {
					r = true
				}
			}
		case CondV:
			if x.c.unk {
				r = true
			}
			rec(x.a)
			rec(x.b)
		case StructV:
			for _, y := range x.f {
				rec(y)
			}
		case TupleV:
			for _, y := range x {
				rec(y)
			}
		case IfaceV:
			rec(x.v)
		case nil:
		}
	}
	rec(v)
	return r
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func samePlace(a, b Place) bool {
	if a.cell != b.cell || a.obj != b.obj || a.idx != b.idx || !sameTerms(a.oidx, b.oidx) || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

func sameV(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x.obj == y.obj && sameTerms(x.oidx, y.oidx) && x.off == y.off && x.len == y.len && x.isn == y.isn
	case PtrV:
		y, ok := b.(PtrV)
		return ok && samePlace(x.pl, y.pl)
	case NilV:
		_, ok := b.(NilV)
		return ok
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && types.Identical(x.dyn, y.dyn) && sameV(x.v, y.v)
	case FuncV:
		y, ok := b.(FuncV)
		return ok && x.decl == y.decl && x.lit == y.lit && x.env == y.env && x.sym == y.sym && x.std == y.std && (x.recv == nil) == (y.recv == nil) && (x.recv == nil || sameV(x.recv, y.recv))
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameV(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case StrV:
		y, ok := b.(StrV)
		return ok && x.s == y.s
	case CondV:
		y, ok := b.(CondV)
		return ok && x.c == y.c && sameV(x.a, y.a) && sameV(x.b, y.b)
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameV(x[i], y[i]) {
				return false
			}
		}
		return true
	case UnkV:
		_, ok := b.(UnkV)
		return ok
	case nil:
		return b == nil
	}
	return false
}

// mkCond is the gamma function on values.
func mkCond(c *Term, a, b Value) Value {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if sameV(a, b) {
		return a
	}
	if _, ok := a.(UnkV); ok {
		if t, ok := b.(*Term); ok {
			return Ite(c, Unk(t.sort, "merged"), t)
		}
		return a
	}
	if _, ok := b.(UnkV); ok {
		if t, ok := a.(*Term); ok {
			return Ite(c, t, Unk(t.sort, "merged"))
		}
		return b
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			if x.sort != y.sort {
				return UnkV{"sorts"}
			}
			return Ite(c, x, y)
		}
	case SliceV:
		if y, ok := b.(SliceV); ok && x.obj == y.obj {
			oi := make([]*Term, len(x.oidx))
			for i := range oi {
				oi[i] = Ite(c, x.oidx[i], y.oidx[i])
			}
			return SliceV{x.obj, oi, Ite(c, x.off, y.off), Ite(c, x.len, y.len), Ite(c, x.cap, y.cap), Ite(c, x.isn, y.isn)}
		}
	case StructV:
		if y, ok := b.(StructV); ok && len(x.f) == len(y.f) {
			f := make([]Value, len(x.f))
			for i := range f {
				f[i] = mkCond(c, x.f[i], y.f[i])
			}
			return StructV{x.typ, f}
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			f := make(TupleV, len(x))
			for i := range f {
				f[i] = mkCond(c, x[i], y[i])
			}
			return f
		}
	case CondV:
		if x.c == c {
			return mkCond(c, x.a, b)
		}
		if x.c == Not(c) {
			return mkCond(c, x.b, b)
		}
	case StrV:
		if _, ok := b.(StrV); ok {
			return StrV{"?"}
		}
	}
	if y, ok := b.(CondV); ok {
		if y.c == c {
			return mkCond(c, a, y.b)
		}
		if y.c == Not(c) {
			return mkCond(c, a, y.a)
		}
		if sameV(a, y.a) {
			return mkCond(Or(c, y.c), a, y.b)
		}
		if sameV(a, y.b) {
			return mkCond(And(Not(c), y.c), y.a, a)
		}
	}
	if x, ok := a.(CondV); ok {
		if sameV(x.b, b) {
			return mkCond(And(c, x.c), x.a, b)
		}
		if sameV(x.a, b) {
			return mkCond(And(c, Not(x.c)), x.b, b)
		}
	}
	return CondV{c, a, b}
}

func showV(v Value) string {
	switch x := v.(type) {
	case *Term:
		return x.String()
	case SliceV:
		return fmt.Sprintf("slice(%s%v+%v len %v)", x.obj.key, x.oidx, x.off, x.len)
	case PtrV:
		if x.pl.cell != nil {
			return "&" + x.pl.cell.key
		}
		return fmt.Sprintf("&%s%v", x.pl.obj.key, x.pl.oidx)
	case NilV:
		return "nil"
	case IfaceV:
		return fmt.Sprintf("iface<%s>(%s)", x.dyn, showV(x.v))
	case StructV:
		var ss []string
		for _, f := range x.f {
			ss = append(ss, showV(f))
		}
		return "{" + strings.Join(ss, ", ") + "}"
	case CondV:
		return fmt.Sprintf("(%v ? %s : %s)", x.c, showV(x.a), showV(x.b))
	case UnkV:
		return "unknown(" + x.why + ")"
	case StrV:
		return fmt.Sprintf("%q", x.s)
	case FuncV:
		return "func"
	case TupleV:
		var ss []string
		for _, f := range x {
			ss = append(ss, showV(f))
		}
		return "<" + strings.Join(ss, ", ") + ">"
	}
	return fmt.Sprintf("%T", v)
}

// mergeStates joins two states that descend from a common one; a is taken when c holds.
func mergeStates(c *Term, a, b *State) *State {
	if a == nil || a.dead() {
		return b
	}
	if b == nil || b.dead() {
		return a
	}
	n := &State{vars: map[*Cell]Value{}, mem: map[*VObj]*Content{}, live: Or(a.live, b.live), facts: a.facts}
	for k, va := range a.vars {
		if vb, ok := b.vars[k]; ok {
			n.vars[k] = mkCond(c, va, vb)
		} else {
			n.vars[k] = va
		}
	}
	for k, vb := range b.vars {
		if _, ok := a.vars[k]; !ok {
			n.vars[k] = vb
		}
	}
	for o, ca := range a.mem {
		if cb, ok := b.mem[o]; ok {
			n.mem[o] = mergeContent(c, ca, cb)
		} else {
			n.mem[o] = ca
		}
	}
	for o, cb := range b.mem {
		if _, ok := a.mem[o]; !ok {
			n.mem[o] = cb
		}
	}
	return n
}

// mergeContent joins two write logs that descend from a common one. Every region carries its
// own absolute guard, so the join is the union of the logs.
func mergeContent(c *Term, a, b *Content) *Content {
	if a == b {
		return a
	}
	if !a.havoc && !b.havoc && a.ver != b.ver && (wildVer(a.ver) || wildVer(b.ver)) {
		gen := a.gen
		if gen == nil {
			gen = b.gen
		}
		alt := []*Content{a, b}
		if a.perm != b.perm || len(a.regs)+len(b.regs) > 0 {
			a = &Content{ver: a.ver, vargs: a.vargs, regs: a.regs, lvl: a.lvl}
		}
		return &Content{alt: alt, altc: c, perm: a.perm, permNo: a.permNo && b.permNo, ver: fmt.Sprintf("m@%p(%s+%d|%s+%d)", c, a.ver, len(a.regs), b.ver, len(b.regs)), vargs: append(append([]*Term{}, a.vargs...), b.vargs...), gen: gen, lvl: a.lvl}
	}
	if a.havoc || b.havoc || a.ver != b.ver {
		return &Content{havoc: true}
	}
	i := 0
	for i < len(a.regs) && i < len(b.regs) && a.regs[i] == b.regs[i] {
		i++
	}
	if i == len(b.regs) {
		return a
	}
	if i == len(a.regs) {
		return b
	}
	n := &Content{ver: a.ver, vargs: a.vargs, gen: a.gen, alt: a.alt, altc: a.altc, ord: a.ord, perm: a.perm, permNo: a.permNo, lvl: a.lvl, regs: append([]*Region{}, a.regs...)}
	seen := map[*Region]bool{}
	for _, r := range a.regs[i:] {
		seen[r] = true
	}
	for _, r := range b.regs[i:] {
		if !seen[r] {
			n.regs = append(n.regs, r)
		}
	}
	return n
}

// wildVer: array contents left by a coarse loop.
func wildVer(v string) bool {
	return strings.HasPrefix(v, "head@") || strings.HasPrefix(v, "left@") || strings.HasPrefix(v, "m@")
}

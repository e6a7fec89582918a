package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"time"
)

// Permutation invariants. An integer array that a coarse loop changes is followed as a
// permutation of 0..n-1: it must be one before the loop, and every pass must leave the array of
// its start with entries exchanged in pairs. Boolean variables that start out equal to (or
// opposite to) its parity and are changed accordingly are followed as the parity itself.

const (
	permYes = iota
	permUnknown
	permNo
)

// lengthOf: the length of an array, when a variable holds the slice of the whole of it.
func lengthOf(st *State, o *VObj) *Term {
	var n *Term
	var rec func(v Value)
	rec = func(v Value) {
		switch x := v.(type) {
		case StructV:
			for _, f := range x.f {
				rec(f)
			}
		case SliceV:
			if x.obj == o && len(x.oidx) == 0 && x.off == Int(0) && !x.len.unk && (n == nil || n.id > x.len.id) {
				n = x.len
			}
		}
	}
	for _, v := range st.vars {
		rec(v)
	}
	return n
}

func xorT(a, b *Term) *Term { return Or(And(a, Not(b)), And(Not(a), b)) }

// permOf: is the array a permutation of 0..n-1, and of which parity (even is true).
// The parity is that of the permutation of the start, changed under each of the deltas.
func (in *Interp) permOf(f *Facts, c *Content, o *VObj, n *Term) (status int, start *Term, deltas []*Term) {
	if c == nil {
		c = &Content{}
	}
	if c.havoc {
		return permUnknown, nil, nil
	}
	loops := in.loops
	in.loops = nil
	defer func() { in.loops = loops }()
	in.permFresh++
	x := Sym(fmt.Sprintf("perm#%d", in.permFresh), SInt)
	fx := f.with(Ge0(x), Lt(x, n))
	read := func(k int, at *Term, f *Facts) *Term {
		v, _ := in.readFrom(c, k-1, o, nil, at, f, 0).(*Term)
		return v
	}
	whole := func(k int) bool {
		v := read(k, x, fx)
		if v == nil || v.unk {
			return false
		}
		v = in.simpT(fx, v)
		if v == x || in.proveSame(fx, v, x, 3) {
			start = tTrue
			return true
		}
		if v.op == OApp && v.name == "pver" {
			a := v.args
			if a[len(a)-1] == x && !hasSym(x, a[:len(a)-1]...) && in.proveSame(f, a[len(a)-2], n, 2) {
				start = App("parity", SBool, a[:len(a)-1]...)
				return true
			}
		}
		return false
	}
	if c.permNo && len(c.regs) == 0 {
		return permNo, tFalse, nil
	}
	// the exchanges at the end of the log, then the array they start from
	k := len(c.regs)
	for {
		if whole(k) {
			return permYes, start, deltas
		}
		if k == 0 && c.permNo {
			return permNo, tFalse, nil
		}
		if k < 2 {
			break
		}
		r1, r2 := c.regs[k-2], c.regs[k-1]
		v1, ok1 := r1.val.(*Term)
		v2, ok2 := r2.val.(*Term)
		if len(r1.bs) > 0 || len(r2.bs) > 0 || r1.acc || r2.acc || !ok1 || !ok2 || len(r1.oidx)+len(r2.oidx) > 0 {
			break
		}
		g := r1.guard
		if r1.guard != r2.guard && (Decide(f.with(conjuncts(r1.guard)...), r2.guard) != tTrue || Decide(f.with(conjuncts(r2.guard)...), r1.guard) != tTrue) {
			break
		}
		fg := f.with(conjuncts(g)...)
		o1, o2 := read(k-2, r1.idx, fg), read(k-2, r2.idx, fg)
		if o1 == nil || o2 == nil || !in.proveSame(fg, v1, o2, 3) || !in.proveSame(fg, v2, o1, 3) {
			break
		}
		deltas = append(deltas, And(Decide(f, g), Not(Eq(r1.idx, r2.idx))))
		k -= 2
	}
	if in.wantPerm {
		// two places with the same entry
		y := Sym(fmt.Sprintf("perm#%d'", in.permFresh), SInt)
		fy := fx.with(Ge0(y), Lt(y, n))
		vx, vy := read(len(c.regs), x, fx), read(len(c.regs), y, fy)
		if vx != nil && vy != nil && !vx.unk && !vy.unk && !in.plainVer(vx) {
			assume := append([]*Term{}, f.all()...)
			for i, j := 0, len(assume)-1; i < j; i, j = i+1, j-1 {
				assume[i], assume[j] = assume[j], assume[i]
			}
			assume = append(assume, Ge0(x), Lt(x, n), Ge0(y), Lt(x, y), Lt(y, n), Eq(vx, vy))
			for _, a := range assume {
				if a.unk {
					return permUnknown, nil, nil
				}
			}
			for round := 0; round < 6; round++ {
				for _, v := range samples(assume, nil, 4, 7+int64(round), round, time.Now().Add(500*time.Millisecond)) {
					if ok := v.holds(assume); ok {
						return permNo, nil, nil
					}
				}
			}
		}
	}
	return permUnknown, nil, nil
}

// plainVer: a term reads an array a loop left behind, about which nothing is known.
func (in *Interp) plainVer(t *Term) bool {
	return someTerm(func(t *Term) bool { return t.op == OApp && t.name == "ver" && !in.permNos[t.args[0].name] }, t)
}

func (v *Valuation) holds(ts []*Term) bool {
	for _, t := range ts {
		if x, ok := v.Eval(t); !ok || !x.b {
			return false
		}
	}
	return true
}

func hasSym(s *Term, ts ...*Term) bool {
	for _, t := range ts {
		if t.syms[s] {
			return true
		}
	}
	return false
}

// parityIs: e is start changed under each of the deltas (or, with neg, the opposite).
func (in *Interp) parityIs(f *Facts, e, start *Term, deltas []*Term, neg bool) bool {
	if len(deltas) > 0 {
		if len(deltas) > 3 {
			return false
		}
		d := Decide(f, deltas[0])
		rest := deltas[1:]
		if d != tFalse {
			if !in.parityIs(f.with(conjuncts(d)...), e, start, rest, !neg) {
				return false
			}
		}
		if d != tTrue {
			for _, c := range disjuncts(Not(d)) {
				if !in.parityIs(f.with(conjuncts(c)...), e, start, rest, neg) {
					return false
				}
			}
		}
		return true
	}
	if proveContra(f) {
		return true
	}
	want := start
	if neg {
		want = Not(want)
	}
	return Decide(f, in.simpT(f, e)) == Decide(f, want)
}

func disjuncts(t *Term) []*Term {
	if t.op == OOr {
		return t.args
	}
	return []*Term{t}
}

// onlyInts: the loop does nothing but fill integer arrays and move integers.
func (in *Interp) onlyInts(body *ast.BlockStmt) bool {
	good, stores := true, false
	isInt := func(e ast.Expr) bool {
		t := in.typeOf(e)
		if t == nil {
			return false
		}
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	lhs := func(e ast.Expr) {
		switch x := ast.Unparen(e).(type) {
		case *ast.IndexExpr:
			stores = true
			good = good && isInt(x)
		case *ast.Ident:
			good = good && (x.Name == "_" || isInt(x))
		default:
			good = false
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				lhs(l)
			}
		case *ast.IncDecStmt:
			lhs(x.X)
		case *ast.CallExpr, *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit, *ast.BranchStmt, *ast.ReturnStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SwitchStmt:
			good = false
		case *ast.UnaryExpr:
			good = good && x.Op != token.ARROW
		}
		return good
	})
	return good && stores
}

// toggles: the new value of a flag is its old one turned over, at least sometimes.
func toggles(old Value, e *Term) bool {
	o, ok := old.(*Term)
	if !ok || o.sort != SBool {
		return false
	}
	return someTerm(func(t *Term) bool { return t == Not(o) }, e)
}

// parityOff: some pass changes the flag and the parity differently.
func (in *Interp) parityOff(f *Facts, e, start *Term, deltas []*Term, neg bool) bool {
	p := start
	if neg {
		p = Not(p)
	}
	for _, d := range deltas {
		p = xorT(p, d)
	}
	assume := append([]*Term{}, f.all()...)
	for i, j := 0, len(assume)-1; i < j; i, j = i+1, j-1 {
		assume[i], assume[j] = assume[j], assume[i]
	}
	assume = append(assume, xorT(p, e))
	for _, a := range assume {
		if a.unk {
			return false
		}
	}
	for round := 0; round < 8; round++ {
		for _, v := range samples(assume, nil, 4, 11+int64(round), round, time.Now().Add(500*time.Millisecond)) {
			if v.holds(assume) {
				return true
			}
		}
	}
	return false
}

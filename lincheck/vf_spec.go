package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Specifications are Go functions of the analysed package, added through an overlay. They are
// never run: the value-flow analysis derives closed forms for both sides of every vpSame /
// vpCheck in them and compares the forms.

type obl struct {
	kind  string // check, same, fault
	live  *Term
	facts *Facts
	c     *Term
	a, b  *Term
	msg   string
	pos   token.Pos
	bs    []binder
	unkV  bool
	wide  bool // holds for infinite and NaN values as well
}

type SpecResult struct {
	Spec   string `json:"spec"`
	Inst   string `json:"inst"`
	Checks []SpecOb
	Wall   float64
	Funcs  []string
}

type SpecOb struct {
	Rule      string
	Construct string
	Pos       string
	Status    string
	Note      string
}

type specRun struct {
	loose   bool // faults of coarse loops are looked at
	wide    bool // what follows is claimed for infinite and NaN values too
	p       *Prog
	in      *Interp
	obls    []obl
	name    string
	block   int64
	tier    string
	seed    int64
	trace   bool
	wall    time.Duration
	sampled time.Duration // spent comparing closed forms on valuations
	peel    map[string]bool
}

func specOverlay(repo, verif string) (map[string][]byte, error) {
	dir := filepath.Join(verif, "lincheck", "spec")
	fs, err := filepath.Glob(filepath.Join(dir, "*.go.txt"))
	if err != nil || len(fs) == 0 {
		return nil, fmt.Errorf("no specifications in %s", dir)
	}
	out := map[string][]byte{}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		out[filepath.Join(repo, "zz_vp_"+strings.TrimSuffix(filepath.Base(f), ".txt"))] = b
	}
	return out, nil
}

// ---- inputs

func (r *specRun) matrixKinds(param string) []string {
	if strings.HasPrefix(param, "o") {
		return []string{"A", "B", "D", "O"}
	}
	return []string{"A", "B", "D"}
}

func namedStruct(p *Prog, name string) (*types.Named, *types.Struct) {
	o := p.Pkg.Types.Scope().Lookup(name)
	if o == nil {
		return nil, nil
	}
	n, ok := o.Type().(*types.Named)
	if !ok {
		return nil, nil
	}
	s, _ := n.Underlying().(*types.Struct)
	return n, s
}

func isSlice2(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isSlice1(s.Elem())
}

func isSlice1(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Float64])
}

func (in *Interp) preObj(key string, elem types.Type, init func(oidx []*Term, idx *Term) Value) *VObj {
	if o, ok := in.objs[key]; ok {
		return o
	}
	o := &VObj{key: key, typ: elem, pre: true, init: init}
	in.objs[key] = o
	return o
}

func nonnegSym(name string) *Term {
	s := Sym(name, SInt)
	if s.op == OSym {
		tm.nonneg[s] = true
	}
	return s
}

var f64 = types.Typ[types.Float64]
var f64s = types.NewSlice(f64)

// rows creates an input [][]float64.
func (r *specRun) rows(name string, n *Term, width func(i *Term) *Term) SliceV {
	in := r.in
	data := in.preObj("in:"+name+".cells", f64, func(oidx []*Term, idx *Term) Value { return App("A:"+name, SFloat, oidx[0], idx) })
	rows := in.preObj("in:"+name+".rows", f64s, func(oidx []*Term, idx *Term) Value {
		w := width(idx)
		return SliceV{obj: data, oidx: []*Term{idx}, off: Int(0), len: w, cap: w, isn: tFalse}
	})
	return SliceV{obj: rows, off: Int(0), len: n, cap: n, isn: tFalse}
}

func (r *specRun) vec(name string, n *Term) SliceV {
	data := r.in.preObj("in:"+name+".cells", f64, func(oidx []*Term, idx *Term) Value { return App("A:"+name, SFloat, idx) })
	return SliceV{obj: data, off: Int(0), len: n, cap: n, isn: tFalse}
}

func (r *specRun) assume(c *Term) {
	r.in.st.facts = r.in.st.facts.with(c)
}

func (r *specRun) ceilBlocks(n *Term) *Term { return DivInt(AddC(n, r.block-1), Int(r.block)) }

func (r *specRun) blockLen(n, b *Term) *Term {
	return MinI(Int(r.block), Sub(n, Scale(b, float64(r.block))))
}

func (r *specRun) matrix(kind, name string) (Value, types.Type) {
	in := r.in
	R, C := nonnegSym("in:"+name+".rows"), nonnegSym("in:"+name+".cols")
	r.assume(And(Ge0(AddC(R, -1)), Ge0(AddC(C, -1))))
	mk := func(tn string, fill func(st *types.Struct, f []Value)) (Value, types.Type) {
		n, st := namedStruct(r.p, tn)
		if st == nil {
			panic(analysisErr{"type " + tn + " not found"})
		}
		v := in.zero(n).(StructV)
		fill(st, v.f)
		c := in.cell("in:"+name, n)
		in.st.vars[c] = v
		return PtrV{Place{cell: c}}, types.NewPointer(n)
	}
	switch kind {
	case "A":
		return mk("Array2DRowRealMatrix", func(st *types.Struct, f []Value) {
			for i := range f {
				if isSlice2(st.Field(i).Type()) {
					f[i] = r.rows(name, R, func(*Term) *Term { return C })
					return
				}
			}
			panic(analysisErr{"Array2DRowRealMatrix: no [][]float64 field"})
		})
	case "B":
		return mk("BlockRealMatrix", func(st *types.Struct, f []Value) {
			br, bc := r.ceilBlocks(R), r.ceilBlocks(C)
			ints := []*Term{R, C, br, bc}
			ok := false
			for i := range f {
				t := st.Field(i).Type()
				if isSlice2(t) {
					f[i] = r.rows(name, Mul(br, bc), func(b *Term) *Term {
						ib := in.simpDivF(in.st.facts, b, bc)
						jb := Sub(b, Mul(ib, bc))
						return Mul(r.blockLen(R, ib), r.blockLen(C, jb))
					})
					ok = true
				} else if s, isN := sortOf(t); isN && s == SInt && len(ints) > 0 {
					f[i] = ints[0]
					ints = ints[1:]
				}
			}
			if !ok || len(ints) > 0 {
				panic(analysisErr{"BlockRealMatrix: unexpected fields"})
			}
		})
	case "D":
		if R != C {
			panic(skipErr{})
		}
		return mk("DiagonalMatrix", func(st *types.Struct, f []Value) {
			for i := range f {
				if isSlice1(st.Field(i).Type()) {
					f[i] = r.vec(name, R)
					return
				}
			}
			panic(analysisErr{"DiagonalMatrix: no []float64 field"})
		})
	case "O":
		return mk("vpOtherM", func(st *types.Struct, f []Value) {
			f[0], f[1], f[2], f[3] = NilV{}, R, C, FuncV{sym: "A:" + name}
		})
	}
	panic("kind")
}

type skipErr struct{}

func (r *specRun) vector(kind, name string) (Value, types.Type) {
	in := r.in
	N := nonnegSym("in:" + name + ".dim")
	switch kind {
	case "V":
		n, st := namedStruct(r.p, "ArrayRealVector")
		if st == nil {
			panic(analysisErr{"type ArrayRealVector not found"})
		}
		v := in.zero(n).(StructV)
		for i := range v.f {
			if isSlice1(st.Field(i).Type()) {
				v.f[i] = r.vec(name, N)
			}
		}
		c := in.cell("in:"+name, n)
		in.st.vars[c] = v
		return PtrV{Place{cell: c}}, types.NewPointer(n)
	case "W":
		n, _ := namedStruct(r.p, "vpOtherV")
		v := in.zero(n).(StructV)
		v.f[0], v.f[1], v.f[2] = NilV{}, N, FuncV{sym: "A:" + name}
		c := in.cell("in:"+name, n)
		in.st.vars[c] = v
		return PtrV{Place{cell: c}}, types.NewPointer(n)
	}
	panic("kind")
}

// paramKinds lists the ways a parameter is instantiated.
func (r *specRun) paramKinds(name string, t types.Type) []string {
	if n, ok := t.(*types.Named); ok {
		switch n.Obj().Name() {
		case "RealMatrix":
			return r.matrixKinds(name)
		case "RealVector":
			if strings.HasPrefix(name, "o") {
				return []string{"V", "W"}
			}
			return []string{"V"}
		}
	}
	return []string{""}
}

func (r *specRun) param(name, kind string, t types.Type) Value {
	in := r.in
	if s, ok := sortOf(t); ok {
		return Sym("in:"+name, s)
	}
	if p, ok := t.(*types.Pointer); ok {
		switch typeName(p) {
		case "Array2DRowRealMatrix":
			v, _ := r.matrix("A", name)
			return v
		case "BlockRealMatrix":
			v, _ := r.matrix("B", name)
			return v
		case "DiagonalMatrix":
			v, _ := r.matrix("D", name)
			return v
		case "ArrayRealVector":
			v, _ := r.vector("V", name)
			return v
		}
	}
	if n, ok := t.(*types.Named); ok {
		switch n.Obj().Name() {
		case "RealMatrix":
			v, dt := r.matrix(kind, name)
			return IfaceV{dt, v}
		case "RealVector":
			v, dt := r.vector(kind, name)
			return IfaceV{dt, v}
		}
		if iface, ok := n.Underlying().(*types.Interface); ok {
			// visitors: the overlay type that records what it is given
			for _, cand := range []string{"vpCVisitor", "vpPVisitor", "vpVCVisitor", "vpVPVisitor"} {
				o, _ := namedStruct(r.p, cand)
				if o != nil && types.Implements(types.NewPointer(o), iface) {
					c := in.cell("vis:"+name, o)
					in.st.vars[c] = in.zero(o)
					return IfaceV{types.NewPointer(o), PtrV{Place{cell: c}}}
				}
			}
		}
	}
	if isSlice2(t) {
		R := nonnegSym("in:" + name + ".len")
		if strings.HasPrefix(name, "rag") {
			return r.rows(name, R, func(i *Term) *Term {
				w := App("W:"+name, SInt, i)
				tm.nonneg[w] = true
				return w
			})
		}
		C := nonnegSym("in:" + name + ".width")
		return r.rows(name, R, func(*Term) *Term { return C })
	}
	if isSlice1(t) {
		return r.vec(name, nonnegSym("in:"+name+".len"))
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		if srt, ok := sortOf(s.Elem()); ok {
			n := nonnegSym("in:" + name + ".len")
			o := in.preObj("in:"+name+".cells", s.Elem(), func(oidx []*Term, idx *Term) Value { return App("I:"+name, srt, idx) })
			return SliceV{obj: o, off: Int(0), len: n, cap: n, isn: tFalse}
		}
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		return FuncV{sym: "F:" + name}
	}
	panic(analysisErr{"parameter " + name + " of type " + t.String() + " is not supported"})
}

// ---- lenses

// mapCond evaluates f on the alternatives of a value.
func (in *Interp) lens(v Value, f func(Value) Value) Value {
	if c, ok := v.(CondV); ok {
		return in.splitV(c, func(x Value) Value { return in.lens(x, f) })
	}
	if i, ok := v.(IfaceV); ok {
		return in.lens(i.v, f)
	}
	return f(v)
}

func (r *specRun) structOf(v Value) (StructV, string, bool) {
	p, ok := v.(PtrV)
	if !ok {
		return StructV{}, "", false
	}
	var t types.Type
	if p.pl.cell != nil && len(p.pl.path) == 0 {
		t = p.pl.cell.typ
	} else {
		return StructV{}, "", false
	}
	s, ok := r.in.loadPl(p.pl, t).(StructV)
	return s, typeName(t), ok
}

func (in *Interp) elem(v Value, i *Term) Value {
	switch s := v.(type) {
	case SliceV:
		return in.readMem(s.obj, s.oidx, Add(s.off, i))
	case CondV:
		return in.splitV(s, func(x Value) Value { return in.elem(x, i) })
	}
	return UnkV{"element"}
}

func (r *specRun) fieldsOf(s StructV) (slices []Value, ints []Value) {
	st := s.typ.Underlying().(*types.Struct)
	for i := range s.f {
		t := st.Field(i).Type()
		if isSlice1(t) || isSlice2(t) {
			slices = append(slices, s.f[i])
		} else if srt, ok := sortOf(t); ok && srt == SInt {
			ints = append(ints, s.f[i])
		}
	}
	return
}

func asFloat(v Value) *Term {
	if t, ok := v.(*Term); ok && t.sort == SFloat {
		return t
	}
	return Unk(SFloat, "entry")
}

func asIntT(v Value) *Term {
	if t, ok := v.(*Term); ok && t.sort == SInt {
		return t
	}
	return Unk(SInt, "dimension")
}

func (r *specRun) at(m Value, i, j *Term) Value {
	in := r.in
	return in.lens(m, func(v Value) Value {
		s, tn, ok := r.structOf(v)
		if !ok {
			return Unk(SFloat, "entry of an unknown matrix")
		}
		sl, ints := r.fieldsOf(s)
		switch tn {
		case "Array2DRowRealMatrix":
			return asFloat(in.elem(in.elem(sl[0], i), j))
		case "DiagonalMatrix":
			return in.gate(in.st.facts, Eq(i, j), asFloat(in.elem(sl[0], i)), Flt(0))
		case "BlockRealMatrix":
			cols, bc := asIntT(ints[1]), asIntT(ints[3])
			bs := Int(r.block)
			ib, jb := in.simpDivF(in.st.facts, i, bs), in.simpDivF(in.st.facts, j, bs)
			w := in.simpT(in.st.facts, r.blockLen(cols, jb))
			b := Add(Mul(ib, bc), jb)
			k := Add(Mul(Sub(i, Mul(ib, bs)), w), Sub(j, Mul(jb, bs)))
			return asFloat(in.elem(in.elem(sl[0], b), k))
		case "vpOtherM":
			return App("A:"+strings.TrimPrefix(v.(PtrV).pl.cell.key, "in:"), SFloat, i, j)
		}
		return Unk(SFloat, "entry of "+tn)
	})
}

func (r *specRun) dim(m Value, cols bool) Value {
	in := r.in
	return in.lens(m, func(v Value) Value {
		s, tn, ok := r.structOf(v)
		if !ok {
			return Unk(SInt, "dimension of an unknown matrix")
		}
		sl, ints := r.fieldsOf(s)
		switch tn {
		case "Array2DRowRealMatrix":
			if cols {
				return in.lenOf(in.elem(sl[0], Int(0)), false)
			}
			return in.lenOf(sl[0], false)
		case "DiagonalMatrix":
			return in.lenOf(sl[0], false)
		case "BlockRealMatrix":
			if cols {
				return ints[1]
			}
			return ints[0]
		case "vpOtherM":
			if cols {
				return ints[1]
			}
			return ints[0]
		}
		return Unk(SInt, "dimension of "+tn)
	})
}

// shape is the condition that a matrix is a well-formed rows x cols matrix; a and b are
// arbitrary indices.
func (r *specRun) shape(m Value, rows, cols *Term) *Term {
	in := r.in
	v := in.lens(m, func(v Value) Value {
		s, tn, ok := r.structOf(v)
		if !ok {
			return Unk(SBool, "shape of an unknown matrix")
		}
		sl, ints := r.fieldsOf(s)
		any := FreshSym("in:any", SInt)
		tm.nonneg[any] = true
		f := in.st.facts
		switch tn {
		case "Array2DRowRealMatrix":
			in.st.facts = f.with(Ge0(any), Lt(any, rows))
			n, w := asIntT(in.lenOf(sl[0], false)), asIntT(in.lenOf(in.elem(sl[0], any), false))
			w = in.simpT(in.st.facts, w)
			in.st.facts = f
			return And(Eq(n, rows), Not(Exists(any, rows, Not(Eq(w, cols)))))
		case "DiagonalMatrix":
			n := asIntT(in.lenOf(sl[0], false))
			return And(Eq(n, rows), Eq(n, cols))
		case "BlockRealMatrix":
			br, bc := r.ceilBlocks(rows), r.ceilBlocks(cols)
			nb := Mul(br, bc)
			ia, ja := FreshSym("in:anyr", SInt), FreshSym("in:anyc", SInt)
			tm.nonneg[ia], tm.nonneg[ja] = true, true
			in.st.facts = f.with(Lt(ia, br), Lt(ja, bc))
			w := asIntT(in.lenOf(in.elem(sl[0], Add(Mul(ia, bc), ja)), false))
			d := in.simpT(in.st.facts, Sub(w, Mul(r.blockLen(rows, ia), r.blockLen(cols, ja))))
			in.st.facts = f
			return And(Eq(asIntT(ints[0]), rows), Eq(asIntT(ints[1]), cols), Eq(asIntT(ints[2]), br), Eq(asIntT(ints[3]), bc),
				Eq(asIntT(in.lenOf(sl[0], false)), nb), Not(Exists(ia, br, Exists(ja, bc, Not(Eq0(d))))))
		}
		return Unk(SBool, "shape of "+tn)
	})
	if t, ok := v.(*Term); ok && t.sort == SBool {
		return t
	}
	return Unk(SBool, "shape")
}

func (r *specRun) vdata(v Value, f func(Value) Value) Value {
	in := r.in
	return in.lens(v, func(v Value) Value {
		s, _, ok := r.structOf(v)
		if !ok {
			return UnkV{"vector"}
		}
		sl, _ := r.fieldsOf(s)
		if len(sl) == 0 {
			return UnkV{"vector"}
		}
		return f(sl[0])
	})
}

// ---- intrinsics

func (r *specRun) intrinsics() map[string]func(in *Interp, call *ast.CallExpr, args []Value) Value {
	term := func(in *Interp, e ast.Expr) *Term {
		t, ok := in.expr(e).(*Term)
		if !ok {
			s, _ := sortOf(in.typeOf(e))
			return Unk(s, "specification value")
		}
		return t
	}
	str := func(call *ast.CallExpr, i int) string {
		if i < len(call.Args) {
			if tv := r.in.info.Types[call.Args[i]]; tv.Value != nil {
				return constant.StringVal(tv.Value)
			}
		}
		return ""
	}
	m := map[string]func(in *Interp, call *ast.CallExpr, args []Value) Value{}
	m["vpAssume"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		c := in.simpT(in.st.facts, in.cond(call.Args[0]))
		for _, x := range conjuncts(c) {
			if x.op == OEq0 {
				r.unify(x.args[0])
			}
		}
		if c == tFalse || Decide(in.st.facts, c) == tFalse {
			panic(skipErr{})
		}
		in.st.facts = in.st.facts.with(c)
		return TupleV{}
	}
	m["vpAt"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		mv := in.expr(call.Args[0])
		i, j := term(in, call.Args[1]), term(in, call.Args[2])
		return asFloat(r.at(mv, i, j))
	}
	m["vpRows"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		return asIntT(r.dim(in.expr(call.Args[0]), false))
	}
	m["vpCols"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		return asIntT(r.dim(in.expr(call.Args[0]), true))
	}
	m["vpVAt"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		v := in.expr(call.Args[0])
		i := term(in, call.Args[1])
		return asFloat(in.lens(v, func(x Value) Value {
			if s, tn, ok := r.structOf(x); ok && tn == "vpOtherV" {
				_ = s
				return App("A:"+strings.TrimPrefix(x.(PtrV).pl.cell.key, "in:"), SFloat, i)
			}
			return r.vdata(x, func(s Value) Value { return in.elem(s, i) })
		}))
	}
	m["vpVLen"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		v := in.expr(call.Args[0])
		return asIntT(in.lens(v, func(x Value) Value {
			if s, tn, ok := r.structOf(x); ok && tn == "vpOtherV" {
				return s.f[1]
			}
			return r.vdata(x, func(s Value) Value { return in.lenOf(s, false) })
		}))
	}
	m["vpShape"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		mv := in.expr(call.Args[0])
		return r.shape(mv, term(in, call.Args[1]), term(in, call.Args[2]))
	}
	m["vpSame"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		a, b := in.expr(call.Args[0]), in.expr(call.Args[1])
		if in.st.dead() {
			return TupleV{}
		}
		ta, ok1 := a.(*Term)
		tb, ok2 := b.(*Term)
		o := obl{kind: "same", live: in.st.live, facts: in.st.facts, a: ta, b: tb, msg: str(call, 2), pos: call.Pos(), wide: r.wide}
		if !ok1 || !ok2 {
			o.unkV = true
		}
		r.obls = append(r.obls, o)
		return TupleV{}
	}
	m["vpCheck"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		c := in.cond(call.Args[0])
		if in.st.dead() {
			return TupleV{}
		}
		r.obls = append(r.obls, obl{kind: "check", live: in.st.live, facts: in.st.facts, c: c, msg: str(call, 1), pos: call.Pos(), wide: r.wide})
		if !c.unk && c != tFalse {
			// what follows is judged where the check holds
			in.st.facts = in.st.facts.with(conjuncts(c)...)
		}
		return TupleV{}
	}
	m["vpSpecials"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		// what follows is claimed for infinite and NaN values too
		r.wide = r.wide || !in.st.dead()
		return TupleV{}
	}
	m["vpPanics"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		c, _ := r.panics(in, call)
		return c
	}
	m["vpErr"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		f, ok := in.expr(call.Args[0]).(FuncV)
		if !ok || f.lit == nil {
			in.fail(call, "vpErr wants a function literal")
		}
		in.errVals++
		defer func() { in.errVals-- }()
		return in.inlineLit(f, nil, call, in.typeOf(call.Args[0]).Underlying().(*types.Signature))
	}
	m["vpPanicked"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		// the value a call panics with, nil when it does not
		in.errVals++
		base := in.st.facts
		_, es := r.panics(in, call)
		in.errVals--
		var out Value = NilV{}
		live, acc := in.st.live, in.st
		for k := len(es) - 1; k >= 0; k-- {
			e := es[k]
			if e.kind != "panic" {
				continue
			}
			v := e.vals[0]
			c := in.relCond(base, e.cond)
			if len(e.bs) > 0 {
				// raised in a loop: known up to the pass that raises it
				sub := map[*Term]*Term{}
				for _, b := range e.bs {
					if isConst(subst(b.n, sub), 1) {
						sub[b.v] = Int(0)
					} else {
						sub[b.v] = Unk(SInt, "the pass that panics")
					}
				}
				v = substV(v, sub)
				c = existsBs(e.bs, c)
			}
			c = Decide(base, c)
			if c == tFalse {
				continue
			}
			out = in.gate(base, c, v, out)
			if e.st != nil && len(e.bs) == 0 {
				acc = in.mergeSt(base, c, e.st, acc)
			}
		}
		in.st = acc.clone()
		in.st.live, in.st.facts = live, base
		return out
	}
	m["vpMay"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		// the call is allowed to be rejected; what follows holds when it is not
		f, ok := in.expr(call.Args[0]).(FuncV)
		if !ok || f.lit == nil {
			in.fail(call, "vpMay wants a function literal")
		}
		mark := len(in.effects)
		in.inlineLit(f, nil, call, in.typeOf(call.Args[0]).Underlying().(*types.Signature))
		es := append([]*Effect{}, in.effects[mark:]...)
		in.effects = in.effects[:mark]
		for _, e := range es {
			if e.kind != "panic" {
				in.effects = append(in.effects, e)
			}
		}
		return TupleV{}
	}
	m["vpGeneric"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		// like vpMay, with number-crunching loops summarised by what they modify
		in.coarse++
		defer func() { in.coarse-- }()
		mark := len(in.effects)
		v := m["vpMay"](in, call, nil)
		es := append([]*Effect{}, in.effects[mark:]...)
		in.effects = in.effects[:mark]
		for _, e := range es {
			if e.kind != "fault" {
				in.effects = append(in.effects, e)
			}
		}
		return v
	}
	m["vpRun"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		// vpGeneric that keeps the faults: they must not happen
		r.loose = true
		in.coarse++
		in.runs++
		defer func() { in.coarse--; in.runs-- }()
		return m["vpMay"](in, call, nil)
	}
	permutation := func(in *Interp, call *ast.CallExpr, f func(st int, parity *Term) Value) Value {
		return in.lens(in.expr(call.Args[0]), func(x Value) Value {
			s, ok := x.(SliceV)
			if !ok || len(s.oidx) > 0 || s.off != Int(0) {
				return f(permUnknown, nil)
			}
			st, p, ds := in.permOf(in.st.facts, in.st.mem[s.obj], s.obj, s.len)
			for _, d := range ds {
				p = xorT(p, d)
			}
			return f(st, p)
		})
	}
	m["vpPermutation"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		return permutation(in, call, func(st int, _ *Term) Value {
			switch st {
			case permYes:
				return tTrue
			case permNo:
				return tFalse
			}
			return Unk(SBool, "an array that may be a permutation")
		})
	}
	m["vpEven"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		return permutation(in, call, func(st int, p *Term) Value {
			if st != permYes {
				return Unk(SBool, "the parity of an array that may not be a permutation")
			}
			return p
		})
	}
	m["vpOrderly"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		// vpGeneric that follows the order of the arrays loops sort
		in.order = true
		defer func() { in.order = false }()
		return m["vpGeneric"](in, call, nil)
	}
	floats := func(in *Interp, call *ast.CallExpr, f func(ts []*Term) Value) Value {
		return in.lens(in.expr(call.Args[0]), func(x Value) Value {
			return in.lens(in.expr(call.Args[1]), func(y Value) Value {
				a, ok1 := x.(*Term)
				b, ok2 := y.(*Term)
				if !ok1 || !ok2 {
					return Unk(SBool, "not numbers")
				}
				return f([]*Term{a, b})
			})
		})
	}
	m["vpSolving"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		// vpGeneric that follows the substitutions by which loops solve triangular systems
		in.solving = true
		defer func() { in.solving = false }()
		return m["vpGeneric"](in, call, nil)
	}
	m["vpUnsolved"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		t, ok := in.expr(call.Args[0]).(*Term)
		if !ok {
			return TupleV{Unk(SFloat, "not a number"), Unk(SFloat, "not a number"), Unk(SBool, "not a number")}
		}
		was, back, by := in.unsolved(in.simpT(in.st.facts, t))
		return TupleV{was, back, by}
	}
	m["vpSettled"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		t, ok := in.expr(call.Args[0]).(*Term)
		if !ok {
			return Unk(SFloat, "not a number")
		}
		t = in.simpT(in.st.facts, t)
		if !in.settled(t) {
			return Unk(SFloat, "an array that a loop settled")
		}
		return t
	}
	m["vpNotLess"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		return floats(in, call, func(ts []*Term) Value { return in.notLess(ts[0], ts[1]) })
	}
	m["vpFollows"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		at, ok := in.expr(call.Args[2]).(*Term)
		if !ok {
			return Unk(SBool, "no index")
		}
		return floats(in, call, func(ts []*Term) Value { return in.follows(ts[0], ts[1], at) })
	}
	m["vpUntouched"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		_, es := r.panics(in, call)
		r.dirty(in, es, call)
		return TupleV{}
	}
	m["vpEvent"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		var vals []Value
		for _, a := range call.Args[1:] {
			vals = append(vals, in.expr(a))
		}
		if !in.st.dead() {
			in.emit(&Effect{kind: "event", pos: call.Pos(), msg: str(call, 0), vals: vals})
		}
		return TupleV{}
	}
	m["vpRequire"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		c := in.cond(call.Args[0])
		if !in.st.dead() {
			in.require(c, call.Pos(), "requirement: "+str(call, 1))
		}
		return TupleV{}
	}
	m["vpOrder"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		var by []int
		for _, a := range call.Args[2:] {
			if tv := in.info.Types[a]; tv.Value != nil {
				n, _ := constant.Int64Val(constant.ToInt(tv.Value))
				by = append(by, int(n))
			}
		}
		r.order(in, call, str(call, 0), str(call, 1), by)
		return TupleV{}
	}
	m["vpFn"] = func(in *Interp, call *ast.CallExpr, _ []Value) Value {
		var ts []*Term
		for _, a := range call.Args[1:] {
			ts = append(ts, term(in, a))
		}
		return App("F:"+str(call, 0), SFloat, ts...)
	}
	return m
}

// unify turns an assumed equation into a substitution of an input symbol.
func (r *specRun) unify(p *Term) {
	var best *Term
	var coef float64
	for _, m := range polyOf(p) {
		if len(m.f) == 1 && (m.c == 1 || m.c == -1) && m.f[0].op == OSym && strings.HasPrefix(m.f[0].name, "in:") && !strings.Contains(m.f[0].name, "'") {
			s := m.f[0]
			rest := Sub(p, Scale(s, m.c))
			if rest.syms[s] || rest.unk {
				continue
			}
			ok := true
			for x := range rest.syms {
				if !strings.HasPrefix(x.name, "in:") || x.op != OSym {
					ok = false
				}
			}
			if !ok || tm.nonneg[s] && !synNonneg(Scale(rest, -m.c)) && len(rest.syms) > 0 && !Prove(r.in.st.facts, Ge0(Scale(rest, -m.c))) {
				continue
			}
			if best == nil || s.id > best.id {
				best, coef = s, m.c
			}
		}
	}
	if best == nil {
		return
	}
	rest := Sub(p, Scale(best, coef))
	val := Scale(rest, -coef)
	one := map[*Term]*Term{best: val}
	for k, v := range tm.subst {
		tm.subst[k] = subst(v, one)
	}
	tm.subst[best.name] = val
	panic(restartErr{})
}

func existsBs(bs []binder, c *Term) *Term {
	for i := len(bs) - 1; i >= 0; i-- {
		c = Exists(bs[i].v, bs[i].n, c)
	}
	return c
}

// panics analyses a closure and returns the condition under which it panics with a library
// error. Its effects on the state are dropped; possible runtime faults stay.
func (r *specRun) panics(in *Interp, call *ast.CallExpr) (*Term, []*Effect) {
	f, ok := in.expr(call.Args[0]).(FuncV)
	if !ok || f.lit == nil {
		in.fail(call, "vpPanics wants a function literal")
	}
	base := in.st
	mark := len(in.effects)
	in.st = base.clone()
	in.inlineLit(f, nil, call, in.typeOf(call.Args[0]).Underlying().(*types.Signature))
	es := append([]*Effect{}, in.effects[mark:]...)
	in.effects = in.effects[:mark]
	in.st = base
	c := tFalse
	for _, e := range es {
		switch e.kind {
		case "panic":
			c = Or(c, existsBs(e.bs, in.relCond(base.facts, e.cond)))
			if e.libT != nil && !r.isLibErr(e.libT) {
				r.obls = append(r.obls, obl{kind: "fault", live: tTrue, facts: base.facts, c: existsBs(e.bs, e.cond), msg: "panic with " + e.libT.String() + ", not a library error", pos: e.pos})
			}
		case "fault":
			in.effects = append(in.effects, e)
		}
	}
	return Decide(base.facts, c), es
}

func (r *specRun) isLibErr(t types.Type) bool {
	return isErrType(t) || isErrType(types.NewPointer(t))
}

// dirty: no panic may come after a write to an input.
func (r *specRun) dirty(in *Interp, es []*Effect, call *ast.CallExpr) {
	for pi, p := range es {
		if p.kind != "panic" {
			continue
		}
		for wi, w := range es {
			if w.kind != "write" {
				continue
			}
			shared := 0
			for shared < len(p.bs) && shared < len(w.bs) && p.bs[shared].v == w.bs[shared].v {
				shared++
			}
			if wi > pi && shared == 0 {
				continue
			}
			pc := p.cond
			sub := map[*Term]*Term{}
			var wbs []binder
			for _, b := range w.bs {
				v := FreshSym("w", SInt)
				tm.nonneg[v] = true
				sub[b.v] = v
				wbs = append(wbs, binder{v, subst(b.n, sub)})
			}
			wc := subst(w.cond, sub)
			order := tTrue
			if shared > 0 {
				order = Ge0(Sub(p.bs[0].v, sub[w.bs[0].v]))
				if wi > pi && shared == 1 {
					order = Lt(sub[w.bs[0].v], p.bs[0].v)
				}
			}
			c := existsBs(p.bs, existsBs(wbs, And(pc, wc, order)))
			f := in.st.facts
			for _, b := range append(append([]binder{}, p.bs...), wbs...) {
				f = f.with(Ge0(b.v), Lt(b.v, b.n))
			}
			if Decide(f, And(in.simpT(f, pc), in.simpT(f, wc), order)) == tFalse || proveContra(f.with(pc, wc, order)) {
				continue
			}
			r.obls = append(r.obls, obl{kind: "fault", live: tTrue, facts: in.st.facts, c: c,
				msg: fmt.Sprintf("the call can panic (%s) after it has already written %s (%s)", in.p.posn(p.pos), w.msg, in.p.posn(w.pos)), pos: p.pos})
		}
	}
}

// order: the events with the given name happen in increasing lexicographic order of the values
// with the given positions.
func (r *specRun) order(in *Interp, call *ast.CallExpr, name, what string, by []int) {
	var es []*Effect
	for _, e := range in.effects {
		if e.kind == "event" && e.msg == name {
			es = append(es, e)
		}
	}
	for i, a := range es {
		for j, b := range es {
			shared := 0
			for shared < len(a.bs) && shared < len(b.bs) && a.bs[shared].v == b.bs[shared].v {
				shared++
			}
			for d := 0; d < shared; d++ {
				r.orderPair(in, call, a, b, d, true, what, by)
			}
			if i < j {
				r.orderPair(in, call, a, b, shared, false, what, by)
			}
		}
	}
}

func (r *specRun) orderPair(in *Interp, call *ast.CallExpr, a, b *Effect, d int, less bool, what string, by []int) {
	sa, sb := map[*Term]*Term{}, map[*Term]*Term{}
	f := in.st.facts
	for k, x := range a.bs {
		v := FreshSym("e", SInt)
		tm.nonneg[v] = true
		f = f.with(Lt(v, subst(x.n, sa)))
		sa[x.v] = v
		_ = k
	}
	for k, x := range b.bs {
		if k < d {
			sb[x.v] = sa[a.bs[k].v]
			continue
		}
		v := FreshSym("e", SInt)
		tm.nonneg[v] = true
		t := v
		if k == d && less {
			t = Add(AddC(sa[a.bs[k].v], 1), v)
		}
		sb[x.v] = t
		f = f.with(Lt(t, subst(x.n, sb)))
	}
	ca, cb := subst(a.cond, sa), subst(b.cond, sb)
	f = f.with(ca, cb)
	for _, t := range a.facts.all() {
		f = f.with(subst(t, sa))
	}
	for _, t := range b.facts.all() {
		f = f.with(subst(t, sb))
	}
	var xs, ys []*Term
	for _, k := range by {
		if k >= len(a.vals) || k >= len(b.vals) {
			in.fail(call, "vpOrder: no such value")
		}
		x, ok1 := a.vals[k].(*Term)
		y, ok2 := b.vals[k].(*Term)
		if !ok1 || !ok2 {
			in.fail(call, "vpOrder: not a number")
		}
		xs, ys = append(xs, in.simpT(f, subst(x, sa))), append(ys, in.simpT(f, subst(y, sb)))
	}
	g, ok := f, true
	for k := range xs {
		if k == len(xs)-1 {
			ok = ok && Prove(g, Lt(xs[k], ys[k]))
		} else {
			ok = ok && Prove(g, Le(xs[k], ys[k]))
			g = g.with(Ge0(Sub(xs[k], ys[k])))
		}
	}
	if ok || proveContra(f) {
		in.proven++
		return
	}
	c := tFalse
	for k := len(xs) - 1; k >= 0; k-- {
		lt, eq := Lt(xs[k], ys[k]), Eq(xs[k], ys[k])
		if k == len(xs)-1 {
			c = lt
		} else {
			c = Or(lt, And(eq, c))
		}
	}
	r.obls = append(r.obls, obl{kind: "fault", live: tTrue, facts: f, c: And(ca, cb, Not(c)), msg: what, pos: a.pos})
}

// ---- running a specification

func (r *specRun) run(d *ast.FuncDecl, kinds []string) (res SpecResult) {
	res.Spec = d.Name.Name
	res.Inst = strings.Join(kinds, "")
	t0 := time.Now()
	resetTerms()
	sig := r.p.Pkg.TypesInfo.Defs[d.Name].(*types.Func).Type().(*types.Signature)
	// a diagonal matrix is square
	for i := 0; i < sig.Params().Len(); i++ {
		if kinds[i] == "D" || typeName(sig.Params().At(i).Type()) == "DiagonalMatrix" {
			n := sig.Params().At(i).Name()
			tm.subst["in:"+n+".cols"] = nonnegSym("in:" + n + ".rows")
		}
	}
	construct := strings.TrimPrefix(d.Name.Name, "vpSpec_") + "[" + res.Inst + "]"
	add := func(rule, pos, status, note string) {
		res.Checks = append(res.Checks, SpecOb{rule, construct, pos, status, note})
	}
	deadline := time.Now().Add(r.wall)
	proveDeadline = deadline
	r.sampled = 0
	r.peel = map[string]bool{}
	for attempt := 0; ; attempt++ {
		again := false
		func() {
			defer func() {
				e := recover()
				switch x := e.(type) {
				case nil:
				case restartErr:
					again = attempt < 20
				case skipErr:
					add("vf", "-", "skip", "the assumptions do not hold for this combination")
				case budgetErr:
					add("vf", "-", "undecided", "time budget")
				case analysisErr:
					add("vf", "-", "undecided", x.msg)
				case evalFail:
					add("vf", "-", "undecided", "evaluation: "+x.why)
				default:
					if r.trace {
						fmt.Printf("%v\n%s\n", e, debug.Stack())
					}
					add("vf", "-", "undecided", fmt.Sprintf("internal: %v", e))
				}
			}()
			r.once(d, sig, kinds, deadline)
			if r.in.tainted != "" {
				add("vf", "-", "undecided", r.in.tainted)
				return
			}
			if r.trace {
				fmt.Printf("  analysed in %.1fs, %d obligations\n", time.Since(t0).Seconds(), len(r.obls))
			}
			r.verdict(add)
		}()
		if !again {
			break
		}
	}
	res.Wall = time.Since(t0).Seconds()
	if r.in != nil {
		for f := range r.in.entered {
			res.Funcs = append(res.Funcs, f)
		}
		sort.Strings(res.Funcs)
	}
	return
}

func (r *specRun) once(d *ast.FuncDecl, sig *types.Signature, kinds []string, deadline time.Time) {
	in := &Interp{entered: map[string]bool{}, p: r.p, info: r.p.Pkg.TypesInfo, decls: map[*types.Func]*ast.FuncDecl{}, ordVers: map[string]*orderInfo{}, pairVers: map[string]*pairInfo{}, verSeq: map[string]int{}, solved: map[string]*solveInfo{}, rough: map[string]bool{}, solveVers: map[string]bool{}, solveKeys: map[string]bool{}, cells: map[string]*Cell{}, objs: map[string]*VObj{},
		linfo: map[string]*loopInfo{}, simpMemo: map[simpKey]*Term{}, deadline: deadline, globals: map[*types.Var]Value{}, initOf: map[*types.Var]ast.Expr{}}
	in.trace = r.trace
	in.peel = r.peel
	in.wantOrder = strings.HasPrefix(d.Name.Name, "vpSpec_C13_")
	in.wantPerm = strings.HasPrefix(d.Name.Name, "vpSpec_C17_")
	for _, f := range r.p.Pkg.Syntax {
		for _, dd := range f.Decls {
			switch x := dd.(type) {
			case *ast.FuncDecl:
				if fn, ok := in.info.Defs[x.Name].(*types.Func); ok {
					in.decls[fn] = x
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					if vs, ok := s.(*ast.ValueSpec); ok {
						for i, n := range vs.Names {
							if v, ok := in.info.Defs[n].(*types.Var); ok && i < len(vs.Values) {
								in.initOf[v] = vs.Values[i]
							}
						}
					}
				}
			}
		}
	}
	proveMemo = map[proveKey]bool{}
	r.in = in
	r.obls = nil
	r.wide, r.loose = false, false
	in.intr = r.intrinsics()
	in.st = &State{vars: map[*Cell]Value{}, mem: map[*VObj]*Content{}, live: tTrue}
	in.fr = &frame{vars: map[types.Object]*Cell{}}
	in.keys = []string{d.Name.Name}
	var args []Value
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		args = append(args, r.param(p.Name(), kinds[i], p.Type()))
	}
	in.inline(nil, d.Type, d.Body, nil, nil, args, d, sig)
	for _, e := range in.effects {
		switch e.kind {
		case "panic":
			f := e.facts
			r.obls = append(r.obls, obl{kind: "fault", live: tTrue, facts: f, c: e.cond, bs: e.bs, msg: "a valid call is rejected (panic)", pos: e.pos})
		case "fault":
			r.obls = append(r.obls, obl{kind: "fault", live: tTrue, facts: e.facts, c: e.cond, bs: e.bs, msg: "runtime fault: " + e.msg, pos: e.pos})
		}
	}
}

func (r *specRun) verdict(add func(rule, pos, status, note string)) {
	in := r.in
	n := 20
	if r.tier == "thorough" {
		n = 100
	}
	if in.proven > 0 {
		// index, nil and bounds obligations settled on the way
	}
	tv := time.Now()
	if len(in.hints) > 0 {
		report, why := add, strings.Join(in.hints, "; ")
		add = func(rule, pos, status, note string) {
			if status == "violated" {
				note = why + "; " + note
			}
			report(rule, pos, status, note)
		}
	}
	for _, o := range r.obls {
		if r.trace {
			fmt.Printf("  at %.1fs %s %s %s\n", time.Since(tv).Seconds(), o.kind, o.msg, r.p.posn(o.pos))
		}
		pos := r.p.posn(o.pos)
		rule := o.kind
		if o.msg != "" && o.kind != "fault" {
			rule = o.msg
		}
		if o.kind == "fault" {
			rule = "no-fault"
		}
		if o.unkV {
			add(rule, pos, "undecided", "not a number")
			continue
		}
		if o.wide && r.differSpecial(o, 12*n, rule, pos, add) {
			continue
		}
		switch o.kind {
		case "same":
			if in.proveSame(o.facts, o.a, o.b, 4) {
				add(rule, pos, "discharged", "")
				continue
			}
			r.sample(o, n, rule, pos, add)
		case "check":
			c := Decide(o.facts, in.simpT(o.facts, o.c))
			if c == tTrue {
				add(rule, pos, "discharged", "")
				continue
			}
			o.c = c
			r.sample(o, n, rule, pos, add)
		case "fault":
			f := o.facts
			for _, b := range o.bs {
				f = f.with(Ge0(b.v), Lt(b.v, b.n))
			}
			c := Decide(f, in.simpT(f, o.c))
			if c == tFalse || proveContra(f.with(c)) {
				add(rule, pos, "discharged", "")
				continue
			}
			if c.unk {
				add(rule, pos, "undecided", o.msg+": condition contains "+unkWhy(c))
				continue
			}
			if r.loose && hasWild(append([]*Term{c, o.live}, f.all()...)...) {
				add(rule, pos, "undecided", o.msg+": the condition depends on values the analysis does not follow")
				continue
			}
			o.facts, o.c = f, c
			r.sample(o, n, rule, pos, add)
		}
	}
	add("no-fault", "-", "discharged", fmt.Sprintf("%d index, slice, division and nil obligations proved", in.proven))
}

func unkWhy(ts ...*Term) string {
	seen := map[*Term]bool{}
	var res string
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.unk || res != "" {
			return
		}
		seen[t] = true
		if t.op == OUnk {
			res = "an unknown (" + t.name + ")"
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, f := range m.f {
				rec(f)
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return res
}

// differSpecial looks for infinite and NaN values that tell two closed forms apart: the algebra is that
// of the reals, where a zero absorbs every factor and equal terms cancel.
func (r *specRun) differSpecial(o obl, n int, rule, pos string, add func(rule, pos, status, note string)) bool {
	assume := append([]*Term{o.live}, o.facts.all()...)
	ts := []*Term{o.c}
	if o.kind == "same" {
		if o.a == o.b {
			return false
		}
		ts = []*Term{o.a, o.b}
	}
	all := append(append([]*Term{}, ts...), assume...)
	if unkWhy(all...) != "" || hasWild(all...) {
		return false
	}
	for _, v := range samples(assume, ts, n, r.seed, -1, time.Now().Add(time.Second)) {
		if o.kind == "check" {
			if x, ok := v.Eval(o.c); ok && !x.b {
				add(rule, pos, "violated", fmt.Sprintf("does not hold for infinite or NaN values: %s", v.describe(all...)))
				return true
			}
			continue
		}
		x, ok1 := v.Eval(o.a)
		y, ok2 := v.Eval(o.b)
		if !ok1 || !ok2 {
			continue
		}
		same := x.i == y.i
		switch o.a.sort {
		case SFloat:
			same = closeEnough(x.f, y.f)
		case SBool:
			same = x.b == y.b
		}
		if !same {
			add(rule, pos, "violated", fmt.Sprintf("the computed and the specified value differ for infinite or NaN values (%g and %g): %s", x.f, y.f, v.describe(all...)))
			return true
		}
	}
	return false
}

// sample compares closed forms by identity testing: values are substituted for the symbols of
// the forms (the analysed code is not run).
func (r *specRun) sample(o obl, n int, rule, pos string, add func(rule, pos, status, note string)) {
	assume := append([]*Term{}, o.facts.all()...)
	for i, j := 0, len(assume)-1; i < j; i, j = i+1, j-1 {
		assume[i], assume[j] = assume[j], assume[i]
	}
	assume = append(assume, o.live)
	if report := add; o.kind != "fault" && hasWildInt(append([]*Term{o.a, o.b, o.c}, assume...)...) {
		add = func(rule, pos, status, note string) {
			if status == "violated" {
				status, note = "undecided", "an integer computed by a loop decides it: "+note
			}
			report(rule, pos, status, note)
		}
	}
	// what the analysis does not know is not assumed, and counts against a verdict
	var murky []*Term
	for i := 0; i < len(assume); i++ {
		if assume[i].unk {
			murky = append(murky, assume[i])
			assume = append(assume[:i:i], assume[i+1:]...)
			i--
		}
	}
	var ts []*Term
	if o.kind == "fault" {
		assume = append(assume, o.c)
	} else if o.kind == "check" {
		ts = append(ts, o.c)
	} else {
		ts = append(ts, o.a, o.b)
	}
	limit := 4 * time.Second
	if r.tier == "thorough" {
		limit = 15 * time.Second
	}
	_, conds := boundaries(append(append([]*Term{}, assume...), ts...))
	pool := 6 * limit
	if len(conds) > 150 && o.kind != "fault" {
		limit *= 3
	}
	// the obligations of one instance share a pool of time
	if share := (pool - r.sampled) / 4; share < limit && (o.kind == "fault" || r.sampled > pool/2) {
		limit = share
		if limit < 200*time.Millisecond {
			limit = 200 * time.Millisecond
		}
	}
	began := time.Now()
	defer func() { r.sampled += time.Since(began) }()
	until := began.Add(limit)
	vs := samples(assume, append(append([]*Term{}, ts...), murky...), n, r.seed, 0, until)
	why := unkWhy(append(append([]*Term{}, ts...), murky...)...)
	onPath := func(v *Valuation) (on, known bool) {
		on, known = true, true
		for _, t := range murky {
			x, ok := v.Eval(t)
			if ok && !x.b {
				return false, true
			}
			known = known && ok
		}
		return
	}
	if r.trace {
		fmt.Printf("  sampling %s at %s: %d valuations\n", rule, pos, len(vs))
		if o.kind == "same" {
			fmt.Printf("    a = %v\n    b = %v\n", o.a, o.b)
		} else {
			fmt.Printf("    c = %v\n", o.c)
		}
		for _, a := range assume {
			fmt.Printf("      assuming %v\n", a)
		}
		for _, v := range vs {
			fmt.Printf("      at mode %d %s\n", v.mode, v.describe(append(append([]*Term{}, ts...), assume...)...))
		}
	}
	round := 0
	seenT, seenF := map[*Term]bool{}, map[*Term]bool{}
	tried := map[*Term]int{}
	met, missed := 0, 0
	// more valuations, with the comparisons inside the forms going both ways
	more := func(vs []*Valuation) []*Valuation {
		round++
		if round > 400 || time.Now().After(until) {
			return nil
		}
		for i, v := range vs {
			if i >= 4 && round > 1 {
				break
			}
			for _, c := range conds {
				if seenT[c] && seenF[c] {
					continue
				}
				v.fuel = 20000
				if x, ok := v.Eval(c); ok && x.b {
					seenT[c] = true
				} else if ok {
					seenF[c] = true
				}
			}
		}
		goals := assume
		directed := round%3 != 0
		if missed > 12 && met < missed/4 {
			directed = round%4 == 0 // the comparisons left can hardly be met
		}
		directed = directed && len(conds) > 0 && round > 1
		if directed {
			var goal *Term
			least := 6
			for _, c := range conds {
				if seenT[c] == seenF[c] || tried[c] >= least {
					continue
				}
				least = tried[c]
				goal = c
				if seenT[c] {
					goal = Not(c)
				}
			}
			if goal == nil {
				goal = conds[(round*7919)%len(conds)]
				if round%2 == 1 {
					goal = Not(goal)
				}
			} else {
				tried[goal]++
				tried[Not(goal)]++
			}
			goals = append(append([]*Term{}, assume...), goal)
		}
		out := samples(goals, append(append([]*Term{}, ts...), murky...), n/2, r.seed+int64(round)*1000003, round, until)
		if directed && len(out) > 0 {
			met++
		} else if directed {
			missed++
		}
		return out
	}
	if o.kind == "fault" {
		some := false
		for vs, i := vs, 0; i < 400; vs, i = more(vs), i+1 {
			for _, v := range vs {
				on, known := onPath(v)
				some = some || on
				if !on || !known {
					continue
				}
				add(rule, pos, "violated", o.msg+": reachable for "+v.describe(append(ts, assume...)...))
				return
			}
		}
		if some {
			add(rule, pos, "undecided", o.msg+": path condition contains "+why)
			return
		}
		add(rule, pos, "agreed", o.msg+": no valuation reaches it")
		return
	}
	good, fog := 0, 0
	for batch := 0; batch < 400; batch++ {
		if batch > 0 {
			if good == 0 {
				break
			}
			vs = more(vs)
		}
		for _, v := range vs {
			on, known := onPath(v)
			if !on {
				continue
			}
			if o.kind == "check" {
				x, ok := v.Eval(o.c)
				if !ok || !x.b && !known {
					fog++
					continue
				}
				if !x.b && v.otherwise(choices(o.c), assume, func(w *Valuation) bool { y, ok := w.Eval(o.c); return !ok || y.b }) {
					fog++
					if why == "" {
						why = "a choice the analysis does not resolve"
					}
					continue
				}
				if !x.b {
					add(rule, pos, "violated", fmt.Sprintf("does not hold for %s", v.describe(append(ts, assume...)...)))
					return
				}
				good++
				continue
			}
			x, ok1 := v.Eval(o.a)
			y, ok2 := v.Eval(o.b)
			if !ok1 || !ok2 {
				fog++
				continue
			}
			same := false
			switch o.a.sort {
			case SFloat:
				if math.IsNaN(x.f-y.f) || math.IsInf(x.f-y.f, 0) {
					continue
				}
				same = closeEnough(x.f, y.f)
			case SInt:
				same = x.i == y.i
			case SBool:
				same = x.b == y.b
			}
			if !same && !known {
				fog++
				continue
			}
			if !same && v.otherwise(choices(o.a, o.b), assume, func(w *Valuation) bool {
				x, ok1 := w.Eval(o.a)
				y, ok2 := w.Eval(o.b)
				return !ok1 || !ok2 || o.a.sort == SInt && x.i == y.i || o.a.sort == SBool && x.b == y.b || o.a.sort == SFloat && closeEnough(x.f, y.f)
			}) {
				fog++
				if why == "" {
					why = "a choice the analysis does not resolve"
				}
				continue
			}
			if !same {
				w := fmt.Sprintf("%g and %g", x.f, y.f)
				if o.a.sort == SInt {
					w = fmt.Sprintf("%d and %d", x.i, y.i)
				}
				add(rule, pos, "violated", fmt.Sprintf("the computed and the specified value differ (%s) for %s", w, v.describe(append(ts, assume...)...)))
				return
			}
			good++
		}
	}
	if fog > 0 && why != "" {
		add(rule, pos, "undecided", "the forms contain "+why)
		return
	}
	if good < 3 {
		add(rule, pos, "undecided", fmt.Sprintf("only %d usable valuations", good))
		return
	}
	add(rule, pos, "agreed", fmt.Sprintf("closed forms not unified; they agree on %d valuations", good))
}

// proveSame proves two closed forms equal, splitting on the conditions inside them.
func (in *Interp) proveSame(f *Facts, a, b *Term, depth int) bool {
	if a == b {
		return true
	}
	if a.unk || b.unk || a.sort != b.sort {
		return false
	}
	a, b = in.simpT(f, a), in.simpT(f, b)
	if a == b {
		return true
	}
	if a.sort == SInt {
		return Prove(f, Eq(a, b))
	}
	if a.sort == SBool {
		return Decide(f, And(Or(Not(a), b), Or(a, Not(b)))) == tTrue
	}
	if depth <= 0 {
		return false
	}
	if proveContra(f) {
		return true
	}
	d := Sub(a, b)
	if isConst(d, 0) {
		return true
	}
	if e := in.congruent(f, d); e != d {
		if isConst(e, 0) {
			return true
		}
		return in.proveSame(f, e, Num(d.sort, 0), depth-1)
	}
	if c := firstIte(d); c != nil {
		return in.proveSame(f.with(c), a, b, depth-1) && in.proveSame(f.with(Not(c)), a, b, depth-1)
	}
	return in.sameSums(f, d, depth)
}

// congruent replaces uninterpreted terms by earlier ones whose arguments are provably equal.
func (in *Interp) congruent(f *Facts, t *Term) *Term {
	var apps []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OSum, OFold, ORsel, OFirst, OExists:
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.monos {
			for _, x := range m.f {
				rec(x)
			}
		}
		if t.op == OApp && len(t.args) > 0 && t.sort == SFloat {
			apps = append(apps, t)
		}
	}
	rec(t)
	if len(apps) > 12 {
		return t
	}
	for i, a := range apps {
		for _, b := range apps[:i] {
			if a.name != b.name || len(a.args) != len(b.args) {
				continue
			}
			ok := true
			for k := range a.args {
				x, y := a.args[k], b.args[k]
				if x == y {
					continue
				}
				if x.sort != SInt || !Prove(f, Eq(x, y)) {
					ok = false
					break
				}
			}
			if ok {
				return replaceTerm(t, a, b)
			}
		}
	}
	return t
}

func replaceTerm(t, old, nw *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == old {
			return nw
		}
		if t.size < old.size || t.op == OSym {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		memo[t] = t
		switch t.op {
		case OSum, OFold, ORsel, OFirst, OExists:
			return t
		}
		r := rebuild(t, rec)
		memo[t] = r
		return r
	}
	return rec(t)
}

// firstIte finds a condition in a conditional outside binders.
func firstIte(t *Term) *Term {
	var rec func(t *Term) *Term
	seen := map[*Term]bool{}
	rec = func(t *Term) *Term {
		if seen[t] {
			return nil
		}
		seen[t] = true
		switch t.op {
		case OIte:
			return t.args[0]
		case OSum, OFold, ORsel, OFirst, OExists:
			return nil
		}
		for _, a := range t.args {
			if r := rec(a); r != nil {
				return r
			}
		}
		for _, m := range t.monos {
			for _, x := range m.f {
				if r := rec(x); r != nil {
					return r
				}
			}
		}
		return nil
	}
	return rec(t)
}

// sameSums proves that a difference of sums is zero by pairing sums of equal length.
func (in *Interp) sameSums(f *Facts, d *Term, depth int) bool {
	var groups []*Term // combined bodies, by count
	var counts []*Term
	var vars []*Term
	for _, m := range polyOf(d) {
		var s *Term
		var rest []*Term
		for _, x := range m.f {
			if x.op == OSum && s == nil {
				s = x
			} else {
				rest = append(rest, x)
			}
		}
		if s == nil {
			return false
		}
		gi := -1
		for i, c := range counts {
			if c == s.args[1] || Prove(f, Eq(c, s.args[1])) {
				gi = i
			}
		}
		if gi < 0 {
			gi = len(counts)
			counts = append(counts, s.args[1])
			v := FreshSym("s", SInt)
			tm.nonneg[v] = true
			vars = append(vars, v)
			groups = append(groups, Num(d.sort, 0))
		}
		body := Mul(mkPoly(d.sort, []Mono{{m.c, rest}}), subst1(s.args[2], s.args[0], vars[gi]))
		groups[gi] = Add(groups[gi], body)
	}
	for i, g := range groups {
		f2 := f.with(Ge0(vars[i]), Lt(vars[i], counts[i]))
		if !in.proveSame(f2, g, Num(d.sort, 0), depth-1) {
			return false
		}
	}
	return true
}

// ---- driver

func specFuncs(p *Prog) []*ast.FuncDecl {
	var out []*ast.FuncDecl
	for _, f := range p.Pkg.Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && strings.HasPrefix(fd.Name.Name, "vpSpec_") {
				out = append(out, fd)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name.Name < out[j].Name.Name })
	return out
}

type specJob struct {
	d     *ast.FuncDecl
	kinds []string
}

func (r *specRun) jobs(prefix string) []specJob {
	var out []specJob
	for _, d := range specFuncs(r.p) {
		if !strings.HasPrefix(d.Name.Name, "vpSpec_"+prefix) {
			continue
		}
		sig := r.p.Pkg.TypesInfo.Defs[d.Name].(*types.Func).Type().(*types.Signature)
		combos := [][]string{{}}
		for i := 0; i < sig.Params().Len(); i++ {
			p := sig.Params().At(i)
			var next [][]string
			for _, c := range combos {
				for _, k := range r.paramKinds(p.Name(), p.Type()) {
					next = append(next, append(append([]string{}, c...), k))
				}
			}
			combos = next
		}
		for _, c := range combos {
			out = append(out, specJob{d, c})
		}
	}
	return out
}

func newSpecRun(repo, verif, tier string, seed int64) (*specRun, error) {
	ov, err := specOverlay(repo, verif)
	if err != nil {
		return nil, err
	}
	p, err := Load(repo, ov)
	if err != nil {
		return nil, err
	}
	r := &specRun{p: p, tier: tier, seed: seed, block: 52, wall: specWall(tier)}
	if c, ok := p.Pkg.Types.Scope().Lookup("BLOCK_SIZE").(*types.Const); ok {
		if n, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
			r.block = n
		}
	}
	return r, nil
}

func (j specJob) name() string {
	return strings.TrimPrefix(j.d.Name.Name, "vpSpec_") + "[" + strings.Join(j.kinds, "") + "]"
}

// specWorker lists its jobs, then analyses the ones it is asked for, one line each.
func specWorker(repo, verif, tier string, seed int64, prefix string) int {
	r, err := newSpecRun(repo, verif, tier, seed)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 1
	}
	jobs := r.jobs(prefix)
	var names []string
	for _, j := range jobs {
		names = append(names, j.name())
	}
	out := json.NewEncoder(os.Stdout)
	_ = out.Encode(names)
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		i, err := strconv.Atoi(sc.Text())
		if err != nil || i < 0 || i >= len(jobs) {
			return 1
		}
		_ = out.Encode(r.run(jobs[i].d, jobs[i].kinds))
	}
	return 0
}

type specProc struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	names []string
}

func startWorker(args, env []string) (*specProc, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	w := &specProc{cmd: exec.Command(self, args...)}
	w.cmd.Env = append(os.Environ(), env...)
	w.cmd.Stderr = os.Stderr
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReaderSize(o, 1<<16)
	if err = w.cmd.Start(); err != nil {
		return nil, err
	}
	b, err := w.out.ReadBytes('\n')
	if err != nil {
		w.stop()
		return nil, fmt.Errorf("the sources do not load: %v", err)
	}
	return w, json.Unmarshal(b, &w.names)
}

func (w *specProc) stop() {
	_ = w.in.Close()
	_ = w.cmd.Process.Kill()
	_ = w.cmd.Wait()
}

// ask: the result of one job, or nil when the worker died or did not answer in time.
func (w *specProc) ask(i int, limit time.Duration) *SpecResult {
	if _, err := fmt.Fprintln(w.in, i); err != nil {
		return nil
	}
	ch := make(chan *SpecResult, 1)
	go func() {
		b, err := w.out.ReadBytes('\n')
		var r SpecResult
		if err != nil || json.Unmarshal(b, &r) != nil {
			ch <- nil
			return
		}
		ch <- &r
	}()
	select {
	case r := <-ch:
		return r
	case <-time.After(limit):
		return nil
	}
}

// runSpecs analyses the specifications with the given prefix, in parallel processes.
func runSpecs(repo, verif, tier string, seed int64, prefix, only string) ([]SpecResult, error) {
	end := time.Now().Add(checkWall(tier))
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	args := []string{"-worker", "serve", "-specs", prefix, "-repo", repo, "-verif", verif, "-tier", tier}
	env := []string{fmt.Sprintf("VERIF_SEED=%d", seed), "GOMEMLIMIT=2500MiB"}
	first, err := startWorker(args, env)
	if err != nil {
		return nil, err
	}
	var queue []int
	for i, nm := range first.names {
		fn := nm
		if b := strings.Index(nm, "["); b >= 0 {
			fn = nm[:b]
		}
		if only == "" || strings.Contains(nm, only) || strings.HasPrefix(only, "@") && strings.Contains(only+";", ";"+fn+";") || strings.HasPrefix(only, "=") && strings.Contains(only+";", ";"+nm+";") {
			queue = append(queue, i)
		}
	}
	names := first.names
	if n > len(queue) {
		n = len(queue)
	}
	if n == 0 {
		first.stop()
		return nil, nil
	}
	var mu sync.Mutex
	next := 0
	take := func() int {
		mu.Lock()
		defer mu.Unlock()
		if next >= len(queue) {
			return -1
		}
		next++
		return queue[next-1]
	}
	var all []SpecResult
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(w *specProc) {
			defer wg.Done()
			for i := take(); i >= 0; i = take() {
				var r *SpecResult
				left := time.Until(end)
				if left > time.Second {
					if w == nil {
						w, _ = startWorker(args, env)
					}
					if w != nil {
						if lim := specWall(tier) + 20*time.Second; left > lim {
							left = lim
						}
						if r = w.ask(i, left); r == nil {
							w.stop()
							w = nil
						}
					}
				}
				if r == nil {
					nm := names[i]
					b := strings.Index(nm, "[")
					r = &SpecResult{Spec: "vpSpec_" + nm[:b], Inst: strings.Trim(nm[b:], "[]"), Checks: []SpecOb{{"vf", nm, "-", "undecided", "time or memory budget"}}}
				}
				mu.Lock()
				all = append(all, *r)
				mu.Unlock()
			}
			if w != nil {
				w.stop()
			}
		}(map[bool]*specProc{true: first}[k == 0])
	}
	wg.Wait()
	sort.Slice(all, func(i, j int) bool {
		if all[i].Spec != all[j].Spec {
			return all[i].Spec < all[j].Spec
		}
		return all[i].Inst < all[j].Inst
	})
	return all, nil
}

// specWall bounds one instance, checkWall a whole check.
func specWall(tier string) time.Duration {
	if tier == "thorough" {
		return 150 * time.Second
	}
	return 90 * time.Second
}

func checkWall(tier string) time.Duration {
	if tier == "thorough" {
		return 3 * time.Hour
	}
	return 10 * time.Minute
}

// specCheck is the check of a property by its specifications.
func specCheck(c *Ctx, prefix string, only ...string) {
	sel := ""
	if len(only) > 0 {
		sel = "@;" + strings.Join(only, ";") + ";"
	}
	res, err := runSpecs(c.Repo, c.Verif, c.Tier, c.Seed, prefix, sel)
	if err != nil {
		c.Obs = append(c.Obs, Obligation{"load", "specifications", "-", "violated", err.Error()})
		return
	}
	seen := map[string]bool{}
	for _, r := range res {
		seen[strings.TrimPrefix(r.Spec, "vpSpec_")] = true
	}
	for _, nm := range only {
		if !seen[nm] {
			c.add("load", "specification "+nm, "-", "violated", "there is no such specification")
		}
	}
	n := 0
	for _, r := range res {
		for _, o := range r.Checks {
			if o.Status == "skip" {
				continue
			}
			n++
			c.add(o.Rule, o.Construct, o.Pos, o.Status, o.Note)
		}
	}
	c.Stats["specification_instances"] = len(res)
	c.Found = len(res)
	fns := map[string]bool{}
	for _, r := range res {
		for _, f := range r.Funcs {
			if !strings.Contains(f, "vp") {
				fns[f] = true
			}
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	c.Stats["functions_analysed"] = len(fl)
	c.Stats["functions"] = fl
}

// showSpecs is the debugging front end.
func showSpecs(repo, verif, tier string, seed int64, prefix, only string, trace, verbose bool) int {
	var res []SpecResult
	if trace {
		r, err := newSpecRun(repo, verif, tier, seed)
		if err != nil {
			fmt.Println(err)
			return 1
		}
		r.trace = true
		for _, job := range r.jobs(prefix) {
			inst := job.name()
			if only == "" || strings.Contains(inst, only) {
				fmt.Println("==", inst)
				res = append(res, r.run(job.d, job.kinds))
			}
		}
	} else {
		var err error
		res, err = runSpecs(repo, verif, tier, seed, prefix, only)
		if err != nil {
			fmt.Println(err)
			return 1
		}
	}
	if f := os.Getenv("LINCHECK_JSON"); f != "" {
		b, _ := json.Marshal(res)
		_ = os.WriteFile(f, b, 0o644)
	}
	tot := map[string]int{}
	for _, r := range res {
		cnt := map[string]int{}
		for _, o := range r.Checks {
			cnt[o.Status]++
			tot[o.Status]++
		}
		fmt.Printf("%-50s %6.2fs  ok %d agreed %d undecided %d violated %d skip %d\n", strings.TrimPrefix(r.Spec, "vpSpec_")+"["+r.Inst+"]", r.Wall, cnt["discharged"], cnt["agreed"], cnt["undecided"], cnt["violated"], cnt["skip"])
		for _, o := range r.Checks {
			if o.Status == "violated" || o.Status == "undecided" || verbose && o.Status != "skip" {
				fmt.Printf("      %s %s %s: %s\n", o.Status, o.Rule, o.Pos, o.Note)
			}
		}
	}
	fmt.Println(tot)
	return 0
}

package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math"
	"strings"
)

// methodRecv evaluates the receiver of a method selection.
func (in *Interp) methodRecv(x *ast.SelectorExpr, sel *types.Selection) (Value, types.Type) {
	t := in.typeOf(x.X)
	var v Value
	_, isPtr := t.Underlying().(*types.Pointer)
	_, isI := t.Underlying().(*types.Interface)
	if !isPtr && !isI && addressable(x.X) {
		v, _ = in.place(x.X)
		return in.walkRecv(v, t, true, sel.Index(), sel.Obj().(*types.Func), x)
	}
	v = in.expr(x.X)
	return in.walkRecv(v, t, false, sel.Index(), sel.Obj().(*types.Func), x)
}

// walkRecv follows the embedding path to the receiver of fn. isPlace: v is the place of a
// value of type t.
func (in *Interp) walkRecv(v Value, t types.Type, isPlace bool, index []int, fn *types.Func, n ast.Node) (Value, types.Type) {
	for _, i := range index[:len(index)-1] {
		ptr := isPlace
		if p, ok := t.Underlying().(*types.Pointer); ok && !isPlace {
			ptr = true
			t = p.Elem()
		} else if ok {
			v = in.load(v, t, n.Pos())
			t = p.Elem()
		}
		st := t.Underlying().(*types.Struct)
		if ptr {
			v = in.fieldPlace(v, t, []int{i}, n.Pos())
			isPlace = true
		} else {
			v = in.project(v, i)
			isPlace = false
		}
		t = st.Field(i).Type()
	}
	// adjust to the receiver type
	recvT := fn.Type().(*types.Signature).Recv().Type()
	if _, isI := recvT.Underlying().(*types.Interface); isI {
		if isPlace {
			v = in.load(v, t, n.Pos())
		}
		return v, t
	}
	_, wantPtr := recvT.(*types.Pointer)
	_, havePtr := t.Underlying().(*types.Pointer)
	switch {
	case wantPtr && isPlace && !havePtr:
		return v, recvT
	case wantPtr && !isPlace && !havePtr:
		return in.allocCell(in.sitePos(n)+"recv", t, v), recvT
	case wantPtr && havePtr:
		if isPlace {
			v = in.load(v, t, n.Pos())
		}
		return v, recvT
	case !wantPtr && havePtr:
		if isPlace {
			v = in.load(v, t, n.Pos())
		}
		return in.load(v, t.Underlying().(*types.Pointer).Elem(), n.Pos()), recvT
	case !wantPtr && isPlace:
		return in.load(v, t, n.Pos()), recvT
	}
	return v, recvT
}

func (in *Interp) argVals(call *ast.CallExpr, sig *types.Signature) []Value {
	var vals []Value
	np := sig.Params().Len()
	if len(call.Args) == 1 && np > 1 {
		if tt, ok := in.typeOf(call.Args[0]).(*types.Tuple); ok {
			tv, ok := in.exprMulti(call.Args[0]).(TupleV)
			for i := 0; i < np; i++ {
				if ok && i < len(tv) {
					vals = append(vals, in.convTo(tv[i], tt.At(i).Type(), sig.Params().At(i).Type()))
				} else {
					vals = append(vals, UnkV{"tuple"})
				}
			}
			return vals
		}
	}
	for i, a := range call.Args {
		if sig.Variadic() && i >= np-1 {
			break
		}
		vals = append(vals, in.exprTo(a, sig.Params().At(i).Type()))
	}
	if sig.Variadic() {
		vt := sig.Params().At(np - 1).Type().(*types.Slice)
		if call.Ellipsis.IsValid() {
			vals = append(vals, in.exprTo(call.Args[np-1], vt))
		} else if len(call.Args) < np {
			vals = append(vals, in.zero(vt))
		} else {
			rest := call.Args[np-1:]
			n := Int(int64(len(rest)))
			s := in.allocSlice(in.sitePos(call)+"...", vt.Elem(), n, n)
			for i, a := range rest {
				v := in.exprTo(a, vt.Elem())
				if !in.st.dead() {
					in.writeMem(s.obj, s.oidx, Int(int64(i)), nil, v, a.Pos())
				}
			}
			vals = append(vals, s)
		}
	}
	return vals
}

func (in *Interp) call(call *ast.CallExpr) Value {
	in.posn = append(in.posn, call.Pos())
	defer func() { in.posn = in.posn[:len(in.posn)-1] }()
	fun := call.Fun
	for {
		p, ok := fun.(*ast.ParenExpr)
		if !ok {
			break
		}
		fun = p.X
	}
	// conversions
	if tv, ok := in.info.Types[fun]; ok && tv.IsType() {
		return in.convert(call.Args[0], tv.Type)
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := in.info.Uses[id].(*types.Builtin); ok {
			return in.builtin(b.Name(), call)
		}
	}
	sig, ok := in.typeOf(fun).Underlying().(*types.Signature)
	if !ok {
		in.fail(call, "call of %s", exprString(fun))
	}
	var fv Value
	switch f := fun.(type) {
	case *ast.Ident:
		if o, ok := in.info.Uses[f].(*types.Func); ok {
			fv = FuncV{decl: o}
		} else {
			fv = in.expr(fun)
		}
	case *ast.SelectorExpr:
		sel := in.info.Selections[f]
		if sel == nil {
			fv = in.selector(f)
		} else if sel.Kind() == types.MethodVal {
			fn := sel.Obj().(*types.Func)
			recv, rt := in.methodRecv(f, sel)
			if in.st.dead() {
				return in.unkResults(sig, "unreachable")
			}
			args := in.argVals(call, sig)
			if in.st.dead() {
				return in.unkResults(sig, "unreachable")
			}
			if _, isI := fn.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface); isI {
				_ = rt
				return in.dispatch(recv, fn, args, call, sig)
			}
			return in.invoke(fn, recv, args, call, sig)
		} else {
			fv = in.expr(fun)
		}
	default:
		fv = in.expr(fun)
	}
	if in.st.dead() {
		return in.unkResults(sig, "unreachable")
	}
	if f, ok := fv.(FuncV); ok && f.decl != nil && in.intr[f.decl.Name()] != nil && f.recv == nil {
		return in.intr[f.decl.Name()](in, call, nil)
	}
	args := in.argVals(call, sig)
	if in.st.dead() {
		return in.unkResults(sig, "unreachable")
	}
	return in.apply(fv, args, call, sig)
}

func (in *Interp) unkResults(sig *types.Signature, why string) Value {
	if sig.Results().Len() == 1 {
		return in.unkOf(sig.Results().At(0).Type(), why)
	}
	var tv TupleV
	for i := 0; i < sig.Results().Len(); i++ {
		tv = append(tv, in.unkOf(sig.Results().At(i).Type(), why))
	}
	return tv
}

func one(v Value, sig *types.Signature) Value { return v }

func (in *Interp) apply(fv Value, args []Value, call *ast.CallExpr, sig *types.Signature) Value {
	switch f := fv.(type) {
	case FuncV:
		switch {
		case f.sym != "":
			var ts []*Term
			for _, a := range args {
				t, ok := a.(*Term)
				if !ok {
					return in.unkResults(sig, "symbolic function of non numbers")
				}
				ts = append(ts, t)
			}
			if sig.Results().Len() == 0 {
				in.emit(&Effect{kind: "event", pos: call.Pos(), msg: f.sym, vals: args})
				return TupleV{}
			}
			s, ok := sortOf(sig.Results().At(0).Type())
			if !ok {
				return in.unkResults(sig, "symbolic function")
			}
			return App(f.sym, s, ts...)
		case f.std != nil:
			return in.stdCall(f.std, args, call, sig)
		case f.lit != nil:
			return in.inlineLit(f, args, call, sig)
		case f.decl != nil:
			if f.recv != nil {
				if _, isI := f.decl.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface); isI {
					return in.dispatch(f.recv, f.decl, args, call, sig)
				}
			}
			return in.invoke(f.decl, f.recv, args, call, sig)
		}
	case NilV:
		in.require(tFalse, call.Pos(), "call of a nil function")
		return in.unkResults(sig, "nil function")
	case CondV:
		return in.splitCall(f, func(v Value) Value { return in.apply(v, args, call, sig) })
	}
	in.taint("call of an unknown function")
	return in.unkResults(sig, "unknown function")
}

func (in *Interp) splitCall(c CondV, f func(Value) Value) Value { return in.splitV(c, f) }

// dispatch calls an interface method on a value of known dynamic type.
func (in *Interp) dispatch(recv Value, fn *types.Func, args []Value, call *ast.CallExpr, sig *types.Signature) Value {
	switch r := recv.(type) {
	case IfaceV:
		obj, index, _ := types.LookupFieldOrMethod(r.dyn, true, in.p.Pkg.Types, fn.Name())
		m, ok := obj.(*types.Func)
		if !ok {
			break
		}
		rv, _ := in.walkRecv(r.v, r.dyn, false, index, m, call)
		if in.st.dead() {
			return in.unkResults(sig, "unreachable")
		}
		if _, isI := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface); isI {
			if _, isNil := rv.(NilV); isNil {
				// the contract-only operand implements part of its interface
				in.taint("method " + fn.Name() + " is not modelled for " + r.dyn.String())
				return in.unkResults(sig, "unmodelled method")
			}
			return in.dispatch(rv, m, args, call, sig)
		}
		return in.invoke(m, rv, args, call, sig)
	case NilV:
		in.require(tFalse, call.Pos(), "method "+fn.Name()+" called on a nil interface")
		return in.unkResults(sig, "nil interface")
	case CondV:
		return in.splitCall(r, func(v Value) Value { return in.dispatch(v, fn, args, call, sig) })
	}
	if in.trace {
		fmt.Println("   receiver:", showV(recv))
	}
	in.taint("method " + fn.Name() + " on an unknown value")
	return in.unkResults(sig, "unknown receiver")
}

func isErrType(t types.Type) bool {
	e := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return types.Implements(t, e)
}

func (in *Interp) invoke(fn *types.Func, recv Value, args []Value, call *ast.CallExpr, sig *types.Signature) Value {
	if c, ok := recv.(CondV); ok {
		return in.splitCall(c, func(v Value) Value { return in.invoke(fn, v, args, call, sig) })
	}
	if in.intr[fn.Name()] != nil && recv == nil {
		return in.intr[fn.Name()](in, call, args)
	}
	d := in.decls[fn]
	if d == nil || d.Body == nil {
		in.taint("call of " + fn.FullName())
		return in.unkResults(sig, "external "+fn.Name())
	}
	// comparison up to a number of units in the last place: an opaque reflexive relation
	if fn.Name() == "equalsWithULP" && recv == nil && sig.Params().Len() == 3 && sig.Results().Len() == 1 && len(args) == 3 {
		x, ok1 := args[0].(*Term)
		y, ok2 := args[1].(*Term)
		u, ok3 := args[2].(*Term)
		if ok1 && ok2 && ok3 && x.sort == SFloat && y.sort == SFloat && u.sort == SInt {
			if x.id > y.id {
				x, y = y, x
			}
			return ulpEq(x, y, u)
		}
	}
	// error constructors: a concrete error value, whatever its text
	if sig.Results().Len() == 1 && recv == nil && in.errVals == 0 {
		rt := sig.Results().At(0).Type()
		if _, isI := rt.Underlying().(*types.Interface); !isI && isErrType(rt) {
			return in.zero(rt)
		}
	}
	n := 0
	for _, f := range in.stack {
		if f == fn {
			n++
		}
	}
	if n > 1 || len(in.stack) > 24 {
		in.taint("recursion in " + fn.Name())
		return in.unkResults(sig, "recursion")
	}
	in.stack = append(in.stack, fn)
	in.entered[strings.Replace(fn.FullName(), in.p.Pkg.PkgPath+".", "", 1)] = true
	coarse := in.coarse
	if rv := fn.Type().(*types.Signature).Recv(); in.runs > 0 && rv != nil && in.isMatrix(rv.Type()) {
		// the operations of the matrices themselves are followed exactly
		in.coarse = 0
	}
	r := in.inline(d.Recv, d.Type, d.Body, nil, recv, args, call, fn.Type().(*types.Signature))
	in.coarse = coarse
	in.stack = in.stack[:len(in.stack)-1]
	return r
}

func (in *Interp) inlineLit(f FuncV, args []Value, call *ast.CallExpr, sig *types.Signature) Value {
	if len(in.keys) > 40 {
		in.taint("closure recursion")
		return in.unkResults(sig, "recursion")
	}
	return in.inline(nil, f.lit.Type, f.lit.Body, f.env, nil, args, call, sig)
}

func (in *Interp) inline(recvF *ast.FieldList, ft *ast.FuncType, body *ast.BlockStmt, env *frame, recv Value, args []Value, call ast.Node, sig *types.Signature) Value {
	oldFr := in.fr
	in.keys = append(in.keys, in.sitePos(call))
	fr := &frame{key: in.key(), vars: map[types.Object]*Cell{}, up: env, sig: sig}
	in.fr = fr
	base := in.st
	if recvF != nil && len(recvF.List) == 1 && len(recvF.List[0].Names) == 1 {
		in.define(recvF.List[0].Names[0], recv)
	}
	i := 0
	for _, f := range ft.Params.List {
		for _, n := range f.Names {
			if i < len(args) {
				in.define(n, args[i])
			}
			i++
		}
		if len(f.Names) == 0 {
			i++
		}
	}
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, n := range f.Names {
				in.define(n, in.zero(in.info.Defs[n].Type()))
				fr.res = append(fr.res, fr.vars[in.info.Defs[n]])
			}
		}
	}
	in.block(body.List)
	if !in.st.dead() {
		var vals TupleV
		for _, c := range fr.res {
			vals = append(vals, in.st.vars[c])
		}
		for len(vals) < sig.Results().Len() {
			vals = append(vals, UnkV{"missing return"})
		}
		fr.rets = append(fr.rets, exitS{in.st, vals})
	}
	in.fr = oldFr
	in.keys = in.keys[:len(in.keys)-1]
	if len(fr.rets) == 0 {
		in.st = base.clone()
		in.st.live = tFalse
		return in.unkResults(sig, "no return")
	}
	acc := fr.rets[len(fr.rets)-1]
	for j := len(fr.rets) - 2; j >= 0; j-- {
		e := fr.rets[j]
		c := in.relCond(base.facts, e.st.live)
		n := in.mergeSt(base.facts, c, e.st, acc.st)
		vals := make(TupleV, len(acc.vals))
		for k := range vals {
			vals[k] = in.gate(base.facts, c, e.vals[k], acc.vals[k])
		}
		acc = exitS{n, vals}
	}
	in.st = acc.st
	if len(fr.rets) > 1 {
		if in.st.live == base.live {
			in.st.facts = base.facts
		} else {
			in.st.facts = base.facts.with(in.relCond(base.facts, in.st.live))
		}
	}
	if !hasEscape(body) {
		for _, c := range fr.plain {
			if _, was := base.vars[c]; !was {
				delete(in.st.vars, c)
			}
		}
	}
	if sig.Results().Len() == 1 {
		return acc.vals[0]
	}
	return acc.vals
}

var escMemo = map[*ast.BlockStmt]bool{}

// hasEscape: the body takes addresses of variables or creates closures.
func hasEscape(b *ast.BlockStmt) bool {
	if r, ok := escMemo[b]; ok {
		return r
	}
	r := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			r = true
		case *ast.UnaryExpr:
			if x.Op.String() == "&" {
				if _, ok := x.X.(*ast.CompositeLit); !ok {
					r = true
				}
			}
		case *ast.SelectorExpr:
			r = r || false
		}
		return !r
	})
	escMemo[b] = r
	return r
}

func (in *Interp) convert(e ast.Expr, to types.Type) Value {
	v := in.expr(e)
	s, ok := sortOf(to)
	if !ok {
		from := in.typeOf(e)
		if _, isI := to.Underlying().(*types.Interface); isI {
			return in.convTo(v, from, to)
		}
		if types.Identical(from.Underlying(), to.Underlying()) {
			return v
		}
		return in.convTo(v, from, to)
	}
	t, ok := v.(*Term)
	if !ok {
		return Unk(s, "conversion")
	}
	if t.sort == s {
		return t
	}
	if s == SFloat && t.sort == SInt {
		return FromInt(t)
	}
	if s == SInt && t.sort == SFloat {
		return ToInt(t)
	}
	return Unk(s, "conversion")
}

func (in *Interp) builtin(name string, call *ast.CallExpr) Value {
	switch name {
	case "len", "cap":
		v := in.expr(call.Args[0])
		return in.lenOf(v, name == "cap")
	case "panic":
		v := in.exprTo(call.Args[0], types.NewInterfaceType(nil, nil))
		if in.st.dead() {
			return TupleV{}
		}
		var lt types.Type
		if iv, ok := v.(IfaceV); ok {
			lt = iv.dyn
		}
		pe := &Effect{kind: "panic", pos: call.Pos(), libT: lt}
		if in.errVals > 0 {
			pe.vals, pe.st = []Value{v}, in.st
		}
		in.emit(pe)
		in.st = in.st.clone()
		in.st.live = tFalse
		return TupleV{}
	case "make":
		t := in.typeOf(call.Args[0])
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return UnkV{"make"}
		}
		n, ok := in.expr(call.Args[1]).(*Term)
		if !ok {
			return UnkV{"make"}
		}
		c := n
		if len(call.Args) > 2 {
			if c, ok = in.expr(call.Args[2]).(*Term); !ok {
				return UnkV{"make"}
			}
		}
		in.require(And(Ge0(n), Le(n, c)), call.Pos(), "makeslice: len out of range: "+exprString(call))
		if in.st.dead() {
			return UnkV{"unreachable"}
		}
		return in.allocSlice(in.sitePos(call), sl.Elem(), n, c)
	case "new":
		t := in.typeOf(call.Args[0])
		return in.allocCell(in.sitePos(call), t, in.zero(t))
	case "copy":
		d := in.expr(call.Args[0])
		s := in.expr(call.Args[1])
		if in.st.dead() {
			return Int(0)
		}
		return in.copySlice(d, s, call)
	case "append":
		return in.appendTo(call)
	case "complex":
		re, ok1 := in.expr(call.Args[0]).(*Term)
		im, ok2 := in.expr(call.Args[1]).(*Term)
		if !ok1 || !ok2 || re.sort != SFloat || im.sort != SFloat {
			return UnkV{"complex"}
		}
		return StructV{in.typeOf(call), []Value{re, im}}
	case "real", "imag":
		if z, ok := in.expr(call.Args[0]).(StructV); ok && len(z.f) == 2 {
			if name == "real" {
				return z.f[0]
			}
			return z.f[1]
		}
		return Unk(SFloat, name)
	case "min", "max":
		var acc Value
		for _, a := range call.Args {
			v := in.exprTo(a, in.typeOf(call))
			if acc == nil {
				acc = v
				continue
			}
			x, ok1 := acc.(*Term)
			y, ok2 := v.(*Term)
			if !ok1 || !ok2 {
				return in.unkOf(in.typeOf(call), name)
			}
			if x.sort == SInt {
				if name == "min" {
					acc = MinI(x, y)
				} else {
					acc = MaxI(x, y)
				}
			} else {
				acc = App("math."+strings.Title(name), SFloat, x, y)
			}
		}
		return acc
	}
	in.fail(call, "builtin %s", name)
	return nil
}

func (in *Interp) lenOf(v Value, isCap bool) Value {
	switch x := v.(type) {
	case SliceV:
		if isCap {
			return x.cap
		}
		return x.len
	case StrV:
		if x.s != "?" {
			return Int(int64(len(x.s)))
		}
	case NilV:
		return Int(0)
	case CondV:
		return in.gate(in.st.facts, x.c, in.lenOf(x.a, isCap), in.lenOf(x.b, isCap))
	}
	return Unk(SInt, "length")
}

func (in *Interp) copySlice(dv, sv Value, call *ast.CallExpr) Value {
	if c, ok := dv.(CondV); ok {
		return in.splitV(c, func(v Value) Value { return in.copySlice(v, sv, call) })
	}
	if c, ok := sv.(CondV); ok {
		return in.splitV(c, func(v Value) Value { return in.copySlice(dv, v, call) })
	}
	d, ok1 := dv.(SliceV)
	s, ok2 := sv.(SliceV)
	if !ok1 {
		in.taint("copy to an unknown slice")
		return Unk(SInt, "copy")
	}
	var n *Term
	t := FreshSym("c", SInt)
	tm.nonneg[t] = true
	if ok2 {
		n = in.simpT(in.st.facts, MinI(d.len, s.len))
		save := in.st.facts
		in.st.facts = save.with(Ge0(t), Lt(t, n))
		v := in.readMem(s.obj, s.oidx, Add(s.off, t))
		in.st.facts = save
		in.writeMem(d.obj, d.oidx, Add(d.off, t), []binder{{t, n}}, v, call.Pos())
		return n
	}
	in.writeMem(d.obj, d.oidx, Add(d.off, t), []binder{{t, d.len}}, in.unkOf(d.obj.typ, "copy of unknown"), call.Pos())
	return Unk(SInt, "copy")
}

func (in *Interp) appendTo(call *ast.CallExpr) Value {
	t := in.typeOf(call)
	elem := t.Underlying().(*types.Slice).Elem()
	base := in.exprTo(call.Args[0], t)
	var tail Value
	if call.Ellipsis.IsValid() {
		tail = in.exprTo(call.Args[1], t)
	} else {
		rest := call.Args[1:]
		n := Int(int64(len(rest)))
		s := in.allocSlice(in.sitePos(call)+"args", elem, n, n)
		for i, a := range rest {
			v := in.exprTo(a, elem)
			if in.st.dead() {
				return UnkV{"unreachable"}
			}
			in.writeMem(s.obj, s.oidx, Int(int64(i)), nil, v, a.Pos())
		}
		tail = s
	}
	if in.st.dead() {
		return UnkV{"unreachable"}
	}
	return in.append2(base, tail, elem, call)
}

func (in *Interp) append2(base, tail Value, elem types.Type, call *ast.CallExpr) Value {
	if c, ok := base.(CondV); ok {
		return in.splitV(c, func(v Value) Value { return in.append2(v, tail, elem, call) })
	}
	if c, ok := tail.(CondV); ok {
		return in.splitV(c, func(v Value) Value { return in.append2(base, v, elem, call) })
	}
	b, ok1 := base.(SliceV)
	s, ok2 := tail.(SliceV)
	if !ok1 || !ok2 {
		return UnkV{"append"}
	}
	n := Add(b.len, s.len)
	// a spare capacity would make append write in place: modelled only when there is none
	if b.len != b.cap && !Prove(in.st.facts, Eq(b.len, b.cap)) {
		if bn := Decide(in.st.facts, b.isn); bn != tTrue {
			in.taint("append to a slice of unknown capacity")
		}
	}
	r := in.allocSlice(in.sitePos(call), elem, n, n)
	r.isn = And(b.isn, Eq(s.len, Int(0)))
	for _, p := range []struct {
		s   SliceV
		off *Term
	}{{b, Int(0)}, {s, b.len}} {
		if isConst(p.s.len, 0) {
			continue
		}
		x := FreshSym("c", SInt)
		tm.nonneg[x] = true
		save := in.st.facts
		in.st.facts = save.with(Ge0(x), Lt(x, p.s.len))
		v := in.readMem(p.s.obj, p.s.oidx, Add(p.s.off, x))
		in.st.facts = save
		in.writeMem(r.obj, r.oidx, Add(p.off, x), []binder{{x, p.s.len}}, v, call.Pos())
	}
	return r
}

// stdCall models the library functions the package uses.
func (in *Interp) stdCall(f *types.Func, args []Value, call *ast.CallExpr, sig *types.Signature) Value {
	pkg := f.Pkg().Path()
	if pkg == "math" {
		var ts []*Term
		for _, a := range args {
			t, ok := a.(*Term)
			if !ok {
				return in.unkResults(sig, "math")
			}
			ts = append(ts, t)
		}
		return in.mathCall(f.Name(), ts, sig)
	}
	if pkg == "fmt" && strings.HasPrefix(f.Name(), "Sprint") {
		return StrV{"?"}
	}
	if pkg == "fmt" && f.Name() == "Errorf" || pkg == "errors" && f.Name() == "New" {
		return IfaceV{types.Typ[types.UnsafePointer], NilV{}}
	}
	return in.unkResults(sig, "library "+f.FullName())
}

func (in *Interp) mathCall(name string, ts []*Term, sig *types.Signature) Value {
	name = "math." + name
	allC := len(ts) > 0
	var cs []Val
	for _, t := range ts {
		c, ok := constantT(t)
		allC = allC && ok
		cs = append(cs, Val{f: c})
	}
	if f := mathFns[name]; f != nil && allC {
		return Flt(f(cs))
	}
	switch name {
	case "math.Inf":
		if c, ok := constantT(ts[0]); ok {
			return Flt(math.Inf(int(c)))
		}
		return Ite(Ge0(ts[0]), Flt(math.Inf(1)), Flt(math.Inf(-1)))
	case "math.IsNaN":
		if ts[0].op == OApp && strings.HasPrefix(ts[0].name, "const:") {
			return Bool(ts[0].name == "const:NaN")
		}
		if _, ok := constantT(ts[0]); ok {
			return Bool(false)
		}
	case "math.IsInf":
		one := func(k float64) *Term { return App(name, SBool, ts[0], Int(int64(k))) }
		if c, ok := constantT(ts[1]); ok {
			switch {
			case c > 0:
				return one(1)
			case c < 0:
				return one(-1)
			}
			return Or(one(1), one(-1))
		}
	case "math.NaN":
		return Flt(math.NaN())
	case "math.Min", "math.Max":
		a, b := in.asInt(ts[0]), in.asInt(ts[1])
		if a != nil && b != nil {
			if name == "math.Min" {
				return FromInt(in.simpT(in.st.facts, MinI(a, b)))
			}
			return FromInt(in.simpT(in.st.facts, MaxI(a, b)))
		}
		if ts[0] == ts[1] {
			return ts[0]
		}
		x, y := ts[0], ts[1]
		if x.id > y.id {
			x, y = y, x
		}
		return App(name, SFloat, x, y)
	case "math.Abs":
		if c, ok := constantT(ts[0]); ok {
			if c < 0 {
				c = -c
			}
			return Flt(c)
		}
		// |x| = |-x|
		x := ts[0]
		if m := polyOf(x); len(m) > 0 && m[0].c < 0 {
			x = Scale(x, -1)
		}
		return App(name, SFloat, x)
	case "math.Hypot":
		x, y := ts[0], ts[1]
		if x.id > y.id {
			x, y = y, x
		}
		return App(name, SFloat, x, y)
	case "math.Floor", "math.Ceil", "math.Trunc":
		if in.asInt(ts[0]) != nil {
			return ts[0]
		}
	}
	if sig.Results().Len() != 1 {
		return in.unkResults(sig, name)
	}
	s, ok := sortOf(sig.Results().At(0).Type())
	if !ok {
		return in.unkResults(sig, name)
	}
	return App(name, s, ts...)
}

func ulpEq(x, y, u *Term) *Term {
	if x == y && synNonneg(u) {
		return tTrue
	}
	cx, ok1 := constantT(x)
	cy, ok2 := constantT(y)
	cu, ok3 := constantT(u)
	if ok1 && ok2 && ok3 {
		return Bool(ulpClose(cx, cy, int64(cu)))
	}
	return mk(OApp, SBool, "ulpeq", []*Term{x, y, u}, nil)
}

func ulpClose(x, y float64, u int64) bool {
	ord := func(f float64) int64 {
		b := int64(math.Float64bits(f))
		if b < 0 {
			return math.MinInt64 - b
		}
		return b
	}
	a, b := ord(x), ord(y)
	if a > b {
		a, b = b, a
	}
	if a < 0 && b > 0 && -a > math.MaxInt64-b {
		return false
	}
	return !math.IsNaN(x) && !math.IsNaN(y) && b-a <= u
}

// asInt returns the integer a float term holds, when it is one by construction.
func (in *Interp) asInt(t *Term) *Term {
	r := ToInt(t)
	if r.op == OApp && r.name == "trunc" || hasTrunc(r) {
		return nil
	}
	return r
}

func hasTrunc(t *Term) bool {
	if t.op == OApp && t.name == "trunc" {
		return true
	}
	for _, a := range t.args {
		if a.sort == SInt && hasTrunc(a) {
			return true
		}
	}
	return false
}

var _ = fmt.Sprint

func (in *Interp) isMatrix(t types.Type) bool {
	o := in.p.Pkg.Types.Scope().Lookup("RealMatrix")
	if o == nil {
		return false
	}
	i, ok := o.Type().Underlying().(*types.Interface)
	return ok && types.Implements(t, i)
}

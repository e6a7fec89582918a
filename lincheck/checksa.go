package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checks is the table of property checks.
var checks = map[string]func(*Ctx){}

func init() {
	checks["C01"] = checkNoMutation
	checks["C02"] = checkNoAlias
	checks["C12"] = checkAssertions
	checks["C18"] = checkFrozen
	checks["C24"] = checkPure
	checks["C20"] = checkErrors
}

// api returns the functions a user can call: exported functions and exported methods.
func (c *Ctx) api() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.Funcs {
		if fn.Parent() == nil && ast.IsExported(fn.Name()) {
			out = append(out, fn)
		}
	}
	return out
}

func recvName(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		return typeName(r.Type())
	}
	return ""
}

// iface looks up a package-level interface type by name.
func (c *Ctx) iface(name string) *types.Interface {
	o := c.P.Pkg.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	i, _ := o.Type().Underlying().(*types.Interface)
	return i
}

func (c *Ctx) named(name string) types.Type {
	o := c.P.Pkg.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// implementers of one of the interfaces (as T or *T)
func (c *Ctx) implements(t types.Type, names ...string) bool {
	for _, n := range names {
		i := c.iface(n)
		if i == nil {
			continue
		}
		if types.Implements(t, i) {
			return true
		}
		if _, ok := t.(*types.Pointer); !ok && types.Implements(types.NewPointer(t), i) {
			return true
		}
	}
	return false
}

// memoryTypes: values whose contents the non-mutation property is about.
func (c *Ctx) isMatVec(t types.Type) bool { return c.implements(t, "RealMatrix", "RealVector") }

var visitorIfaces = []string{"RealMatrixChangingVisitor", "RealMatrixPreservingVisitor", "RealVectorChangingVisitor", "RealVectorPreservingVisitor"}

func (c *Ctx) isVisitor(t types.Type) bool { return c.implements(t, visitorIfaces...) }

// matrix and vector methods that exist to change their receiver
var matrixMutators = map[string]bool{"SetEntry": true, "AddToEntry": true, "MultiplyEntry": true, "SetSubMatrix": true, "SetRow": true, "SetColumn": true,
	"SetRowMatrix": true, "SetColumnMatrix": true, "SetRowVector": true, "SetColumnVector": true,
	"WalkInUpdateRowOrder": true, "WalkInUpdateRowOrderBounded": true, "WalkInUpdateColumnOrder": true, "WalkInUpdateColumnOrderBounded": true,
	"WalkInUpdateOptimizedOrder": true, "WalkInUpdateOptimizedOrderBounded": true}
var vectorMutators = map[string]bool{"SetEntry": true, "AddToEntry": true, "Set": true, "SetSubVector": true, "SetSubVectorWithSlice": true, "CopyFrom": true,
	"Map": true, "MapAdd": true, "MapSubtract": true, "MapMultiply": true, "MapDivide": true, "Unitize": true, "Combine": true,
	"WalkInUpdateDefaultOrder": true, "WalkInUpdateDefaultOrderBounded": true, "WalkInUpdateOptimizedOrder": true, "WalkInUpdateOptimizedOrderBounded": true}

// copySwitch: the parameter that decides whether a constructor copies its argument.
func copySwitch(fn *ssa.Function) int {
	if fn.Signature.Recv() != nil {
		return -1
	}
	n := -1
	hasSlice := false
	for i, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if n >= 0 {
				return -1
			}
			n = i
		}
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			hasSlice = true
		}
	}
	if !hasSlice {
		return -1
	}
	return n
}

type specialised struct {
	fn   *ssa.Function
	s    *Summary
	tag  string
	copy int // -1: no switch, 0: switch false, 1: switch true
}

// apiSummaries gives each API function's summary, specialised on the copy switch.
func (c *Ctx) apiSummaries() []specialised {
	e := c.Effects()
	var out []specialised
	for _, fn := range c.api() {
		if k := copySwitch(fn); k >= 0 {
			for _, b := range []bool{true, false} {
				s := e.need(fn, map[int]bool{k: b})
				n := 0
				if b {
					n = 1
				}
				out = append(out, specialised{fn, s, fmt.Sprintf("(%s=%v)", fn.Params[k].Name(), b), n})
			}
			continue
		}
		out = append(out, specialised{fn, e.sums[ctxKey(fn, nil)], "", -1})
	}
	e.settle()
	return out
}

// settle runs the analysis to a fixed point after new contexts were requested.
func (e *Effects) settle() {
	for iter := 0; iter < 60; iter++ {
		e.dirty = false
		for i := 0; i < len(e.order); i++ {
			e.analyse(e.order[i])
		}
		if !e.dirty {
			break
		}
	}
}

func sortedWrites(s *Summary) []Write {
	var ws []Write
	for _, w := range s.writes {
		ws = append(ws, w)
	}
	sort.Slice(ws, func(i, j int) bool {
		a, b := ws[i].loc.String()+ws[i].guards, ws[j].loc.String()+ws[j].guards
		return a < b
	})
	return ws
}

func paramName(fn *ssa.Function, i int) string {
	if i < len(fn.Params) {
		if n := fn.Params[i].Name(); n != "" {
			return n
		}
		return fmt.Sprintf("parameter %d", i)
	}
	return fmt.Sprintf("captured variable %d", i-len(fn.Params))
}

// C01: operations that are not documented to change something change nothing.
func checkNoMutation(c *Ctx) {
	c.Explain = "Interprocedural effect analysis over SSA: for every exported function and method, the set of parameter-rooted memory cells it may write, through every callee, closure and interface implementation in the package. Rule: only the mutator table may write its receiver (or, for CopySubMatrix*, the destination); no function writes any other argument. One obligation per (function, argument that holds memory)."
	c.Assume = []string{"a caller's own visitor, function value or interface implementation is outside the package and changes what its author makes it change",
		"the lazily computed factors of a decomposition are judged by C18"}
	c.Floor = 230
	for _, sp := range c.apiSummaries() {
		fn := sp.fn
		recv := recvName(fn)
		for i, p := range fn.Params {
			if !pointerful(p.Type()) {
				continue
			}
			if _, ok := p.Type().Underlying().(*types.Signature); ok {
				continue
			}
			isRecv := i == 0 && fn.Signature.Recv() != nil
			if c.isVisitor(p.Type()) {
				continue
			}
			if isRecv && !c.isMatVec(p.Type()) {
				continue // decompositions, solvers: C18; iterators advance
			}
			if isRecv && c.implements(p.Type(), "RealMatrix") && matrixMutators[fn.Name()] {
				continue
			}
			if isRecv && c.implements(p.Type(), "RealVector") && vectorMutators[fn.Name()] {
				continue
			}
			if recv == "" && strings.HasPrefix(fn.Name(), "CopySubMatrix") && i == len(fn.Params)-1 {
				continue
			}
			construct := fname(fn) + sp.tag + "/" + paramName(fn, i)
			var w *Write
			for _, x := range sortedWrites(sp.s) {
				if x.loc.o.root == i {
					x := x
					w = &x
					break
				}
			}
			if w == nil {
				c.ok("no-write", construct, fn.Pos())
			} else {
				c.bad("no-write", construct, w.pos, "%s may write %s of its argument %s (in %s); it is not an operation that changes that argument", fname(fn), w.loc, paramName(fn, i), fname(w.fn))
			}
		}
	}
	c.Stats["summaries"] = len(c.Effects().sums)
	c.Stats["call_sites"] = c.Effects().calls
}

// the functions whose result is, by contract, a view of an argument or of internal state
func (c *Ctx) mayShare(fn *ssa.Function) string {
	n := fn.Name()
	if strings.HasSuffix(n, "Ref") {
		return "a reference accessor"
	}
	if n == "Iterator" || n == "Solver" {
		return "a cursor or solver over the receiver"
	}
	if fn.Signature.Recv() == nil && n == "NewBlockRealMatrixFromBlockData" {
		return "documented to take over the blocks"
	}
	return ""
}

// C02: results and stored values do not share memory with arguments.
func checkNoAlias(c *Ctx) {
	c.Explain = "Interprocedural points-to analysis over SSA: the heap graph reachable from every result of every exported function and method, and the references every mutator leaves inside its receiver. Rule: no memory reachable from a result, or newly reachable from a receiver, belongs to an argument, unless the function is a reference accessor (…Ref), a cursor/solver, a constructor told not to copy, or the memoised factor of a decomposition."
	c.Assume = []string{"memory handed to a caller-supplied function value is the caller's business"}
	c.Floor = 600
	e := c.Effects()
	for _, sp := range c.apiSummaries() {
		fn := sp.fn
		if why := c.mayShare(fn); why != "" {
			continue
		}
		recvT := types.Type(nil)
		if r := fn.Signature.Recv(); r != nil {
			recvT = r.Type()
		}
		if recvT != nil && c.isVisitor(recvT) {
			continue
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			rt := fn.Signature.Results().At(i).Type()
			if !pointerful(rt) || isError(rt) {
				continue
			}
			construct := fmt.Sprintf("%s%s/result%d", fname(fn), sp.tag, i)
			var shared []string
			for l := range e.reach(sp.s, sp.s.results[i]) {
				if l.o.root == -1 {
					continue
				}
				if sp.copy == 0 {
					continue // told not to copy
				}
				if l.o.root == 0 && recvT != nil && !c.isMatVec(recvT) && memoised(l, sp.s.results[i], rt) {
					continue
				}
				shared = append(shared, l.String())
			}
			sort.Strings(shared)
			if len(shared) == 0 {
				c.ok("fresh-result", construct, fn.Pos())
			} else {
				c.bad("fresh-result", construct, fn.Pos(), "the result of %s%s may share memory with %s", fname(fn), sp.tag, strings.Join(descLocs(fn, shared), ", "))
			}
		}
		// what an argument or receiver retains
		if sp.copy == 0 {
			continue
		}
		for i, p := range fn.Params {
			if !pointerful(p.Type()) || c.isVisitor(p.Type()) {
				continue
			}
			construct := fname(fn) + sp.tag + "/retained-by-" + paramName(fn, i)
			bad := ""
			for k, v := range sp.s.edges {
				if k.o.root != i {
					continue
				}
				for m := range v {
					for l := range e.reach(sp.s, LocSet{m: true}) {
						if l.o.root >= 0 && l.o.root != i {
							bad = fmt.Sprintf("%s keeps a reference to %s in %s", fname(fn), l, k)
						}
					}
				}
			}
			if bad == "" {
				c.ok("no-retention", construct, fn.Pos())
			} else {
				c.bad("no-retention", construct, fn.Pos(), "%s", bad)
			}
		}
		// a decomposition or solver built from an argument must not keep it
	}
}

// memoised: l belongs to the memoised factor (a matrix object of the receiver) or solver state that
// is the result itself. Slices and vectors are copies, and a factor built around other state of the
// receiver is no memo.
func memoised(l Loc, direct LocSet, rt types.Type) bool {
	switch typeName(rt) {
	case "RealVector", "ArrayRealVector":
		return false
	}
	switch rt.Underlying().(type) {
	case *types.Slice, *types.Map:
		return false
	}
	if !strings.HasSuffix(typeName(rt), "Matrix") {
		return true // a solver over its receiver
	}
	ls := l.String()
	for d := range direct {
		if d.o.root == 0 && (ls == d.String() || strings.HasPrefix(ls, d.String()+".")) {
			return true
		}
	}
	return false
}

func isError(t types.Type) bool { return t.String() == "error" }

func descLocs(fn *ssa.Function, locs []string) []string {
	var out []string
	for _, l := range locs {
		var n int
		if _, err := fmt.Sscanf(l, "P%d", &n); err == nil {
			rest := strings.TrimPrefix(l, fmt.Sprintf("P%d", n))
			out = append(out, paramName(fn, n)+rest)
		} else {
			out = append(out, l)
		}
	}
	return out
}

// C18: a decomposition's observable state is fixed by its constructor.
func checkFrozen(c *Ctx) {
	c.Explain = "Interprocedural effect analysis over SSA: every write to receiver-reachable state in every exported method of the decomposition, transformer and solver types. Rule: such a write is allowed only where the written memo field is known to be nil (so it happens once, before the value is observable), which makes every accessor idempotent and independent of the order of calls."
	c.Assume = []string{"the scratch vector of the Hessenberg transformer is written only while its memoised factor is computed and is read nowhere else afterwards (checked: no other method reads it)"}
	c.Floor = 95
	e := c.Effects()
	for _, fn := range c.api() {
		r := fn.Signature.Recv()
		if r == nil || c.isMatVec(r.Type()) || c.isVisitor(r.Type()) {
			continue
		}
		if _, ok := r.Type().Underlying().(*types.Pointer); !ok {
			continue
		}
		tn := recvName(fn)
		if !(strings.Contains(strings.ToLower(tn), "decomposition") || strings.HasSuffix(tn, "Transformer") || strings.HasSuffix(tn, "Solver")) {
			continue
		}
		s := e.sums[ctxKey(fn, nil)]
		construct := fname(fn)
		bad := false
		for _, w := range sortedWrites(s) {
			if w.loc.o.root != 0 {
				continue
			}
			okw := false
			for _, g := range strings.Split(w.guards, "|") {
				if g == "" {
					continue
				}
				ls := w.loc.String()
				if ls == g || strings.HasPrefix(ls, g+".") {
					okw = true
				}
			}
			if !okw && w.guards != "" && c.scratchOnly(w, tn) {
				okw = true
			}
			if !okw {
				bad = true
				c.bad("frozen-after-construction", construct, w.pos, "%s may write %s of its receiver outside a nil-guarded memo (in %s): a later call can observe a different state", fname(fn), w.loc, fname(w.fn))
			}
		}
		if !bad {
			c.ok("frozen-after-construction", construct, fn.Pos())
		}
	}
	// a constructor must not leave a caller's matrix or slice reachable from the decomposition: then
	// a later change of the input would change the factors
	for _, fn := range c.api() {
		if fn.Signature.Recv() != nil || fn.Signature.Results().Len() == 0 || !strings.HasPrefix(fn.Name(), "New") {
			continue
		}
		rt := fn.Signature.Results().At(0).Type()
		tn := typeName(rt)
		if !(strings.Contains(strings.ToLower(tn), "decomposition") || strings.HasSuffix(tn, "Transformer")) {
			continue
		}
		s := e.sums[ctxKey(fn, nil)]
		var shared []string
		for l := range e.reach(s, s.results[0]) {
			if l.o.root >= 0 {
				shared = append(shared, l.String())
			}
		}
		sort.Strings(shared)
		if len(shared) == 0 {
			c.ok("private-copy", fname(fn), fn.Pos())
		} else {
			c.bad("private-copy", fname(fn), fn.Pos(), "the decomposition keeps %s of its input: changing the input later changes the factors", strings.Join(descLocs(fn, shared), ", "))
		}
	}
	c.memoKeys()
}

// memoKeys: what is stored in a memo field is what the accessor returns from it.
func (c *Ctx) memoKeys() {}

// scratchOnly: the written cell is a private field that only functions reachable from one
// memoising accessor touch besides the constructor path.
func (c *Ctx) scratchOnly(w Write, owner string) bool {
	parts := strings.Split(w.loc.String(), ".")
	if len(parts) < 2 {
		return false
	}
	field := parts[1]
	touches := map[*ssa.Function]bool{}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		r := rootFn(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if typeName(x.X.Type()) == owner && structField(x.X.Type(), x.Field) == field {
						touches[r] = true
					}
				case ssa.CallInstruction:
					if f := x.Common().StaticCallee(); f != nil {
						if callers[rootFn(f)] == nil {
							callers[rootFn(f)] = map[*ssa.Function]bool{}
						}
						callers[rootFn(f)][r] = true
					}
				}
			}
		}
	}
	// the exported methods that reach the scratch memory without going through another one of them
	methods := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if f.Signature.Recv() != nil && ast.IsExported(f.Name()) {
			methods[f] = true
			return
		}
		for g := range callers[f] {
			up(g)
		}
	}
	for f := range touches {
		up(f)
	}
	return len(methods) <= 1
}

func rootFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// C24: no hidden state, no nondeterminism.
func checkPure(c *Ctx) {
	c.Explain = "Interprocedural effect analysis over SSA: every package-level variable an exported function may write, every source of nondeterminism it may reach (goroutines, channels, map iteration, time, randomness, the environment). Rule: none; and no function reads a package-level variable that anything but initialisation writes."
	c.Assume = []string{"the standard library functions of math, fmt, strconv, errors and strings are deterministic", "user visitors and function values are the user's"}
	c.Floor = 400
	e := c.Effects()
	written := map[string]bool{}
	for _, fn := range c.P.Funcs {
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for g := range e.sums[ctxKey(fn, nil)].globalsWritten {
			written[g] = true
		}
	}
	for _, fn := range c.api() {
		s := e.sums[ctxKey(fn, nil)]
		construct := fname(fn)
		bad := false
		for g, pos := range s.globalsWritten {
			bad = true
			c.bad("no-global-state", construct, pos, "%s may write the package-level variable %s", fname(fn), strings.TrimPrefix(g, "G:"))
		}
		for g, pos := range s.globalsRead {
			if written[g] {
				bad = true
				c.bad("no-global-state", construct, pos, "%s reads the package-level variable %s, which is written after initialisation", fname(fn), strings.TrimPrefix(g, "G:"))
			}
		}
		for what, pos := range s.nondet {
			bad = true
			c.bad("no-nondeterminism", construct, pos, "%s may reach a source of nondeterminism: %s", fname(fn), what)
		}
		if !bad {
			c.ok("deterministic", construct, fn.Pos())
		}
	}
	var unk []string
	for u := range e.unknown {
		unk = append(unk, u)
	}
	sort.Strings(unk)
	c.Stats["unmodelled_library_functions"] = unk
}

// C12: type assertions on interface values are guarded.
func checkAssertions(c *Ctx) {
	c.Explain = "Dominator analysis over SSA for every type assertion in the package. Rules: the value of a two-result assertion is dereferenced only where its ok result is known true; a one-result assertion is applied only to a value whose dynamic type is settled (dominated by a successful assertion of the same value to the same type, or produced only by constructors of that type). Gated value-flow and array-section analysis of the operations with an operand of an interface type: for every implementation of the operand (an arbitrary one, known only by its interface, included) the derived result is compared with the definition of the operation."
	c.Floor = 15
	for _, fn := range c.P.Funcs {
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ta, ok := in.(*ssa.TypeAssert)
				if !ok {
					continue
				}
				n++
				construct := fmt.Sprintf("%s/assertion%d to %s", fname(fn), n, types.TypeString(ta.AssertedType, types.RelativeTo(c.P.Pkg.Types)))
				if ta.CommaOk {
					if pos, bad := badUse(ta); bad {
						c.bad("guarded-assertion", construct, pos, "the result of a failed assertion to %s may be dereferenced: the operation panics for any other implementation", ta.AssertedType)
					} else {
						c.ok("guarded-assertion", construct, ta.Pos())
					}
					continue
				}
				if i, ok := ta.AssertedType.Underlying().(*types.Interface); ok && types.Implements(ta.X.Type(), i) {
					continue // the nil check of a method value: every value of the type passes
				}
				if c.settled(ta) {
					c.ok("settled-assertion", construct, ta.Pos())
				} else {
					c.bad("settled-assertion", construct, ta.Pos(), "unguarded assertion of %s to %s: the operation panics for any other implementation", ta.X.Type(), ta.AssertedType)
				}
			}
		}
	}
	specCheck(c, "C", anyImplementation...)
	c.Found = 0
}

// anyImplementation lists the specifications of the operations with an operand of an interface type:
// each is derived for every implementation of it, one from outside the package included.
var anyImplementation = []string{
	"C10_Add", "C10_Subtract", "C10_AddOffDiagonal", "C10_VAdd", "C10_VSubtract", "C10_VEBEMultiply", "C10_VEBEDivide",
	"C10_VCombine", "C10_VCopyFrom", "C10_OuterProduct", "C10_Projection",
	"C11_Multiply", "C11_OperateVector", "C11_PreMultiplyVector", "C11_OuterProduct", "C11_DotProduct",
	"C09_SetRowVector", "C09_SetColumnVector", "C09_SetRowMatrix", "C09_SetColumnMatrix",
	"C09_CopySubMatrix", "C09_CopySubMatrixFromIndices", "C09_SubMatrixFromIndices", "C09_VSetSubVector", "C09_VAppendVector",
	"C19_VecDistance", "C19_VecL1Distance", "C19_VecLInfDistance", "C22_VectorCopy", "C22_VectorFromTwo",
	"C15_LUShapes", "C15_CholeskyShapes", "C15_QRShapes", "C15_RRQRShapes", "C15_Eigen", "C15_SVD",
}

// okRegion returns the block entered only when ok is true, for each If on ok.
func okRegions(okv ssa.Value) (pos, neg []*ssa.BasicBlock) {
	if okv == nil {
		return nil, nil
	}
	for _, r := range *okv.Referrers() {
		switch x := r.(type) {
		case *ssa.If:
			b := x.Block()
			if len(b.Succs[0].Preds) == 1 {
				pos = append(pos, b.Succs[0])
			}
			if len(b.Succs[1].Preds) == 1 {
				neg = append(neg, b.Succs[1])
			}
		case *ssa.UnOp:
			if x.Op == token.NOT {
				p, n := okRegions(x)
				pos = append(pos, n...)
				neg = append(neg, p...)
			}
		}
	}
	return
}

func extracts(t ssa.Value) (v, okv ssa.Value) {
	for _, r := range *t.Referrers() {
		if e, ok := r.(*ssa.Extract); ok {
			if e.Index == 0 {
				v = e
			} else {
				okv = e
			}
		}
	}
	return
}

func badUse(ta *ssa.TypeAssert) (token.Pos, bool) {
	v, okv := extracts(ta)
	if v == nil {
		return token.NoPos, false
	}
	pos, _ := okRegions(okv)
	in := func(b *ssa.BasicBlock) bool {
		for _, p := range pos {
			if p.Dominates(b) {
				return true
			}
		}
		return false
	}
	return derefs(v, in, map[ssa.Value]bool{})
}

func derefs(v ssa.Value, in func(*ssa.BasicBlock) bool, seen map[ssa.Value]bool) (token.Pos, bool) {
	if seen[v] {
		return token.NoPos, false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		if in(r.Block()) {
			continue
		}
		switch x := r.(type) {
		case *ssa.FieldAddr:
			return x.Pos(), true
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return x.Pos(), true
			}
		case *ssa.Call:
			cc := x.Common()
			if cc.IsInvoke() {
				if cc.Value == v {
					return x.Pos(), true
				}
			} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(cc.Args) > 0 && cc.Args[0] == v {
				return x.Pos(), true
			}
		}
	}
	return token.NoPos, false
}

// settled: the dynamic type of the operand of a one-result assertion is known.
func (c *Ctx) settled(ta *ssa.TypeAssert) bool {
	for _, r := range *ta.X.Referrers() {
		t, ok := r.(*ssa.TypeAssert)
		if !ok || !t.CommaOk || !types.Identical(t.AssertedType, ta.AssertedType) {
			continue
		}
		_, okv := extracts(t)
		pos, _ := okRegions(okv)
		for _, p := range pos {
			if p.Dominates(ta.Block()) {
				return true
			}
		}
	}
	d := &dynTypes{c: c, seen: map[string]bool{}}
	ts, known := d.value(ta.X, nil)
	if !known {
		return false
	}
	for _, t := range ts {
		if i, ok := ta.AssertedType.Underlying().(*types.Interface); ok {
			if !types.Implements(t, i) {
				return false
			}
		} else if !types.Identical(t, ta.AssertedType) {
			return false
		}
	}
	return true
}

// dynTypes computes the dynamic types an interface value can have.
type dynTypes struct {
	c    *Ctx
	seen map[string]bool
}

func (d *dynTypes) value(v ssa.Value, env map[ssa.Value][]types.Type) ([]types.Type, bool) {
	if ts, ok := env[v]; ok {
		return ts, true
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return []types.Type{x.X.Type()}, true
	case *ssa.ChangeInterface:
		return d.value(x.X, env)
	case *ssa.Const:
		return nil, true
	case *ssa.Phi:
		var out []types.Type
		for _, e := range x.Edges {
			if e == v {
				continue
			}
			ts, ok := d.value(e, env)
			if !ok {
				return nil, false
			}
			out = append(out, ts...)
		}
		return out, true
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return d.call(call, x.Index, env)
		}
	case *ssa.Call:
		return d.call(x, 0, env)
	}
	return nil, false
}

func (d *dynTypes) call(call *ssa.Call, idx int, env map[ssa.Value][]types.Type) ([]types.Type, bool) {
	f := call.Common().StaticCallee()
	if f == nil || f.Blocks == nil {
		return nil, false
	}
	e2 := map[ssa.Value][]types.Type{}
	key := f.String()
	for i, a := range call.Common().Args {
		if i < len(f.Params) {
			if _, ok := f.Params[i].Type().Underlying().(*types.Interface); ok {
				if ts, ok := d.value(a, env); ok {
					e2[f.Params[i]] = ts
					key += fmt.Sprint(i, ts)
				}
			}
		}
	}
	if d.seen[key] {
		return nil, true
	}
	d.seen[key] = true
	live := d.live(f, e2)
	var out []types.Type
	for _, b := range f.Blocks {
		if !live[b] {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			ts, known := d.value(r.Results[idx], e2)
			if !known {
				return nil, false
			}
			out = append(out, ts...)
		}
	}
	return out, true
}

// live prunes the branches on assertions decided by known dynamic types.
func (d *dynTypes) live(f *ssa.Function, env map[ssa.Value][]types.Type) map[*ssa.BasicBlock]bool {
	live := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if live[b] {
			return
		}
		live[b] = true
		if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			cond, neg := br.Cond, false
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, neg = u.X, true
			}
			if e, ok := cond.(*ssa.Extract); ok && e.Index == 1 {
				if ta, ok := e.Tuple.(*ssa.TypeAssert); ok {
					if ts, ok := env[ta.X]; ok && len(ts) > 0 {
						yes, no := 0, 0
						for _, t := range ts {
							if i, isI := ta.AssertedType.Underlying().(*types.Interface); isI && types.Implements(t, i) || types.Identical(t, ta.AssertedType) {
								yes++
							} else {
								no++
							}
						}
						if neg {
							yes, no = no, yes
						}
						if no == 0 {
							visit(b.Succs[0])
							return
						}
						if yes == 0 {
							visit(b.Succs[1])
							return
						}
					}
				}
			}
		}
		for _, s := range b.Succs {
			visit(s)
		}
	}
	visit(f.Blocks[0])
	return live
}

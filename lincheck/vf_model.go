package main

import (
	"math/rand"
	"sort"
)

// Witnesses: a few valuations under which everything known at a program point holds. A fact
// that fails under one of them does not follow, so the prover need not look for a derivation;
// they never establish anything.

const nWitness = 24

func (f *Facts) witnesses() []*Valuation {
	if f == nil {
		if tm.ground == nil {
			for i := 0; i < nWitness; i++ {
				v := newValuation(int64(7919 * (i + 1)))
				v.mode = []int{0, 3, 1, 0, 5, 2}[i%6]
				tm.ground = append(tm.ground, v)
			}
		}
		return tm.ground
	}
	if f.asked {
		return f.wit
	}
	f.asked = true
	if tm.effort > 3000000 {
		return nil
	}
	up := f.up.witnesses()
	if len(up) == 0 || f.t.unk {
		return nil
	}
	rng := rand.New(rand.NewSource(int64(f.t.id)*31 + int64(f.n)))
	tries := 150
	for _, v := range up {
		if w := v.bind(rng, f.t); w != nil {
			if r, ok := w.try(f.t); ok && r.b {
				f.wit = append(f.wit, w)
				continue
			} else if !ok {
				continue
			}
		}
		// change one symbol of the fact
		near, _ := boundaries([]*Term{f.t})
		syms := intSyms(f.t)
		if len(syms) == 0 {
			continue
		}
		for k := 0; k < 8 && tries > 0; k++ {
			tries--
			s := syms[rng.Intn(len(syms))]
			w := v.with(f.t, rng)
			x, ok := int64(0), false
			if len(near) > 0 && rng.Intn(3) > 0 {
				p := near[rng.Intn(len(near))]
				if p.syms[s] {
					x, ok = w.crossing(p, s, rng)
				}
			}
			if !ok || x > 2000 || x < -2000 {
				x = proposeInt(rng, nil, nil, k%2 == 0, isSize(s))
			}
			if tm.nonneg[s] && x < 0 {
				x = -x
			}
			w.syms[s] = Val{i: x}
			w.memo = map[*Term]Val{}
			good := true
			for g := f; g != nil && good; g = g.up {
				r, ok := w.try(g.t)
				good = ok && r.b
			}
			if good {
				f.wit = append(f.wit, w)
				break
			}
		}
	}
	if len(f.wit) > 0 && len(f.wit) < 3 && len(up) >= 3 {
		// more of the same kind, by moving one symbol at a time
		for k := 0; k < 12 && len(f.wit) < 4; k++ {
			v := f.wit[k%len(f.wit)]
			syms := intSyms(f.t)
			if len(syms) == 0 {
				break
			}
			w := v.with(f.t, rng)
			s := syms[rng.Intn(len(syms))]
			x := w.syms[s].i + int64(rng.Intn(9)) - 4
			if tm.nonneg[s] && x < 0 {
				continue
			}
			w.syms[s] = Val{i: x}
			w.memo = map[*Term]Val{}
			good := true
			for g := f; g != nil && good; g = g.up {
				r, ok := w.try(g.t)
				good = ok && r.b
			}
			if good {
				f.wit = append(f.wit, w)
			}
		}
	}
	return f.wit
}

func intSyms(t *Term) []*Term {
	var out []*Term
	for s := range t.syms {
		if s.sort == SInt && !isBeta(s) {
			out = append(out, s)
		}
	}
	sortTerms(out)
	return out
}

// with is a copy that can be changed, with the symbols of t assigned.
func (v *Valuation) with(t *Term, rng *rand.Rand) *Valuation {
	w := &Valuation{syms: map[*Term]Val{}, memo: map[*Term]Val{}, seed: v.seed, mode: v.mode, pal: v.pal}
	for s, x := range v.syms {
		w.syms[s] = x
	}
	w.assign(t, rng)
	return w
}

func (v *Valuation) missing(t *Term) bool {
	for s := range t.syms {
		if _, ok := v.syms[s]; !ok && s.sort != SAny && !isBeta(s) {
			return true
		}
	}
	return false
}

func (v *Valuation) assign(t *Term, rng *rand.Rand) {
	var ss []*Term
	for s := range t.syms {
		if _, ok := v.syms[s]; !ok && s.sort != SAny && !isBeta(s) {
			ss = append(ss, s)
		}
	}
	sortTerms(ss)
	for _, s := range ss {
		switch s.sort {
		case SInt:
			x := proposeInt(rng, nil, nil, true, isSize(s))
			if tm.nonneg[s] && x < 0 {
				x = -x
			}
			v.syms[s] = Val{i: x}
		case SFloat:
			v.syms[s] = Val{f: float64(rng.Intn(4096)-2048) / 256}
		case SBool:
			v.syms[s] = Val{b: rng.Intn(2) == 0}
		}
	}
}

// bind is v itself when it assigns every symbol of t, and an extension of it otherwise.
func (v *Valuation) bind(rng *rand.Rand, t *Term) *Valuation {
	if !v.missing(t) {
		return v
	}
	return v.with(t, rng)
}

// try evaluates with a small budget.
func (v *Valuation) try(t *Term) (Val, bool) {
	if tm.effort > 3000000 {
		return Val{}, false
	}
	v.fuel = 3000
	r, ok := v.Eval(t)
	tm.effort += 3000 - v.fuel + 20
	return r, ok
}

// refuted: some witness of the facts falsifies the goal.
func (f *Facts) refuted(goal *Term) bool {
	if goal.unk || !intOnly(goal) {
		return false
	}
	for i, v := range f.witnesses() {
		if v.missing(goal) {
			v = v.with(goal, rand.New(rand.NewSource(int64(goal.id*7+i))))
		}
		if r, ok := v.try(goal); ok && !r.b {
			return true
		}
	}
	return false
}

// intOnly: the truth of the condition does not hang on float arithmetic.
func intOnly(t *Term) bool {
	if r, ok := tm.intOnly[t]; ok {
		return r
	}
	r := true
	switch t.op {
	case OFLt, OFLe, OFEq, OFDiv, OFromInt:
		r = false
	}
	if t.sort == SFloat && t.op == OPoly {
		r = false
	}
	for _, a := range t.args {
		r = r && intOnly(a)
	}
	for _, m := range t.monos {
		for _, x := range m.f {
			r = r && intOnly(x)
		}
	}
	tm.intOnly[t] = r
	return r
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}

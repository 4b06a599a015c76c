package main

import (
	"fmt"
	"os"
)

var qprof = os.Getenv("GOSYM_QPROF") != ""

// Conditions over a single 8-bit variable are decided by their exact truth table (256 entries)
// when nothing else in the path condition speaks about that variable; everything else goes to
// the SMT solver. Assertions always go to the solver.

type byteSet [4]uint64

func (s *byteSet) has(b int) bool { return s[b>>6]>>(uint(b)&63)&1 == 1 }
func (s *byteSet) empty() bool    { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s byteSet) and(o byteSet) byteSet {
	for i := range s {
		s[i] &= o[i]
	}
	return s
}
func (s *byteSet) first() int {
	for b := 0; b < 256; b++ {
		if s.has(b) {
			return b
		}
	}
	return -1
}

var fullSet = byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

// multi marks an expression over more than one variable (or one that is not a byte).
var multi = &Expr{}

func joinSup(a, b *Expr) *Expr {
	if a == nil {
		return b
	}
	if b == nil || a == b {
		return a
	}
	return multi
}

func supOf(e *Expr) *Expr {
	if e == nil {
		return nil
	}
	return e.sup
}

// truth is the set of values of the single variable under which e holds.
func (c *Ctx) truth(e *Expr) byteSet {
	if s, ok := c.truths[e]; ok {
		return s
	}
	var r byteSet
	switch e.op {
	case opConst:
		if e.c != 0 {
			r = fullSet
		}
		return r
	case opNot:
		r = c.truth(e.a)
		for i := range r {
			r[i] = ^r[i]
		}
	case opAnd:
		r = c.truth(e.a).and(c.truth(e.b))
	case opOr:
		a, b := c.truth(e.a), c.truth(e.b)
		for i := range r {
			r[i] = a[i] | b[i]
		}
	default:
		v := e.sup
		for b := 0; b < 256; b++ {
			c.epoch++
			if c.Eval(e, Model{v: uint64(b)}) != 0 {
				r[b>>6] |= 1 << (uint(b) & 63)
			}
		}
		c.epoch++
	}
	c.truths[e] = r
	return r
}

func (c *Ctx) support(e *Expr, f func(v *Expr)) {
	if e == nil || e.op == opConst || e.sup == nil {
		return
	}
	if e.sup != multi {
		f(e.sup)
		return
	}
	if l, ok := c.supports[e]; ok {
		for _, v := range l {
			f(v)
		}
		return
	}
	set := map[*Expr]bool{}
	var l []*Expr
	add := func(v *Expr) {
		if !set[v] {
			set[v] = true
			l = append(l, v)
		}
	}
	if e.op == opVar {
		add(e)
	} else {
		c.support(e.a, add)
		c.support(e.b, add)
		c.support(e.d, add)
	}
	c.supports[e] = l
	for _, v := range l {
		f(v)
	}
}

// conj flattens e into conjuncts.
func (c *Ctx) conj(e *Expr, out []*Expr) []*Expr {
	switch {
	case e.op == opAnd:
		return c.conj(e.b, c.conj(e.a, out))
	case e.op == opNot && e.a.op == opOr:
		return c.conj(c.Not(e.a.b), c.conj(c.Not(e.a.a), out))
	}
	return append(out, e)
}

// disj flattens e into disjuncts.
func (c *Ctx) disj(e *Expr, out []*Expr) []*Expr {
	switch {
	case e.op == opOr:
		return c.disj(e.b, c.disj(e.a, out))
	case e.op == opNot && e.a.op == opAnd:
		return c.disj(c.Not(e.a.b), c.disj(c.Not(e.a.a), out))
	}
	return append(out, e)
}

func (e *Expr) single() bool { return e.sup != nil && e.sup != multi }

func (p *Path) addPC(c *Ctx, e *Expr) {
	p.pc = append(p.pc, e)
	p.note(c, e)
}

func (p *Path) note(c *Ctx, e *Expr) {
	if e.op == opConst {
		return
	}
	if e.single() {
		p.pcSet[e] = true
		p.dom[e.sup] = p.domOf(e.sup).and(c.truth(e))
		return
	}
	if l := c.conj(e, nil); len(l) > 1 {
		for _, x := range l {
			p.note(c, x)
		}
		return
	}
	p.pcSet[e] = true
	c.support(e, func(v *Expr) { p.linked[v] = true })
}

func (p *Path) domOf(v *Expr) byteSet {
	if d, ok := p.dom[v]; ok {
		return d
	}
	return fullSet
}

func (p *Path) withModel(n int) Model {
	mod := make(Model, len(p.model)+n)
	for k, v := range p.model {
		mod[k] = v
	}
	return mod
}

// quick decides pc ∧ e when e is a conjunction or a disjunction of conditions over one byte each.
// The model is nil unless the verdict is sat.
func (g *G) quick(e *Expr) (Verdict, Model) {
	p, c := g.m.path, g.m.ctx
	if e.single() {
		s := p.domOf(e.sup).and(c.truth(e))
		if s.empty() {
			return vUnsat, nil
		}
		if p.linked[e.sup] {
			return vUnknown, nil
		}
		mod := p.withModel(1)
		mod[e.sup] = uint64(s.first())
		return vSat, mod
	}
	if p.pcSet[c.Not(e)] {
		return vUnsat, nil
	}
	if l := c.conj(e, nil); len(l) > 1 {
		sets := map[*Expr]byteSet{}
		ok := true
		for _, x := range l {
			if !x.single() {
				if p.pcSet[c.Not(x)] {
					return vUnsat, nil
				}
				if !p.pcSet[x] {
					ok = false
				}
				continue
			}
			d, has := sets[x.sup]
			if !has {
				d = p.domOf(x.sup)
			}
			d = d.and(c.truth(x))
			if d.empty() {
				return vUnsat, nil
			}
			sets[x.sup] = d
			if p.linked[x.sup] {
				ok = false
			}
		}
		if !ok {
			return vUnknown, nil
		}
		mod := p.withModel(len(sets))
		for v, d := range sets {
			mod[v] = uint64(d.first())
		}
		return vSat, mod
	}
	if l := c.disj(e, nil); len(l) > 1 {
		all := true
		for _, x := range l {
			if !x.single() {
				if !p.pcSet[c.Not(x)] {
					all = false
				}
				continue
			}
			d := p.domOf(x.sup)
			d = d.and(c.truth(x))
			if d.empty() {
				continue
			}
			all = false
			if !p.linked[x.sup] {
				mod := p.withModel(1)
				mod[x.sup] = uint64(d.first())
				return vSat, mod
			}
		}
		if all {
			return vUnsat, nil
		}
	}
	return vUnknown, nil
}

// noWay reports that e is excluded by the byte domains or literally negated in the path condition.
func (g *G) noWay(e *Expr) bool {
	p, c := g.m.path, g.m.ctx
	if e.sup == nil {
		return e.isFalse()
	}
	if e.single() {
		s := p.domOf(e.sup).and(c.truth(e))
		return s.empty()
	}
	switch {
	case e.op == opAnd:
		return g.noWay(e.a) || g.noWay(e.b)
	case e.op == opOr:
		return g.noWay(e.a) && g.noWay(e.b)
	case e.op == opNot && e.a.op == opOr:
		return g.noWay(c.Not(e.a.a)) || g.noWay(c.Not(e.a.b))
	case e.op == opNot && e.a.op == opAnd:
		return g.noWay(c.Not(e.a.a)) && g.noWay(c.Not(e.a.b))
	}
	return p.pcSet[c.Not(e)]
}

// known replaces a condition the path condition already settles by its value.
func (g *G) known(e *Expr) *Expr {
	if e.op == opConst || g.m.initDepth > 0 {
		return e
	}
	if g.noWay(e) {
		g.m.domQ++
		g.audit(e, vUnsat)
		return eFalse
	}
	if n := g.m.ctx.Not(e); g.noWay(n) {
		g.m.domQ++
		g.audit(n, vUnsat)
		return eTrue
	}
	return e
}

// audit has the solver confirm a verdict of the byte domains: the first ones of every worker and
// then a thinning sample, so that the cost stays bounded.
func (g *G) audit(e *Expr, v Verdict) {
	m := g.m
	m.auditN++
	if m.auditN > 24 && m.auditN&(m.auditN-1) != 0 && m.auditN%m.auditEvery() != 0 {
		return
	}
	m.audits++
	w, _ := m.sol.Check(m.path.pc, e, false)
	if w != vUnknown && w != v {
		// a solver that was interrupted may have lost an assertion: ask a fresh one, with time
		w, _ = m.sol.Patient(m.path.pc, e)
	}
	if w != vUnknown && w != v {
		m.auditBad++
		fmt.Printf("AUDIT: the byte domains say %v, the solver %v: %s\n", v, w, m.where())
	}
}

func (m *Machine) auditEvery() int64 {
	switch {
	case m.audits < 100:
		return 128
	case m.audits < 400:
		return 1024
	}
	return 65536
}

// check is quick, then the solver.
func (g *G) check(e *Expr) (Verdict, Model) {
	if v, m := g.quick(e); v != vUnknown {
		g.m.domQ++
		if !e.isConst() {
			g.audit(e, v)
		}
		return v, m
	}
	v, m := g.m.sol.Check(g.m.path.pc, e, true)
	if qprof {
		g.m.ex.mu.Lock()
		g.m.ex.outcomes[fmt.Sprintf("query %d in %s", v, g.m.where())]++
		g.m.ex.mu.Unlock()
	}
	return v, m
}

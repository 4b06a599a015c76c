package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const symPkg = "verifharness/sym"

// parseAlphabet expands "a-z" ranges; a '-' at the start or end stands for itself.
func parseAlphabet(a string) [][2]byte {
	var r [][2]byte
	for i := 0; i < len(a); {
		if i+2 < len(a) && a[i+1] == '-' {
			r = append(r, [2]byte{a[i], a[i+2]})
			i += 3
			continue
		}
		r = append(r, [2]byte{a[i], a[i]})
		i++
	}
	return r
}

func (g *G) record(r InputRec) {
	g.m.path.inputs = append(g.m.path.inputs, r)
}

func (g *G) scalarInput(name string, w uint8) *Expr {
	v := g.freshVar("in:"+sanitize(name), w)
	g.record(InputRec{Name: name, e: v, kind: "int"})
	return v
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' || r == '@' || r == '#' || r < 33 || r > 126 {
			return '_'
		}
		return r
	}, s)
}

func (g *G) bytesInput(name string, n int, ranges [][2]byte) []*Expr {
	base := g.uniq("in:" + sanitize(name))
	bs := make([]*Expr, n)
	for i := range bs {
		v := g.m.ctx.Var(fmt.Sprintf("%s.%d@8", base, i), 8)
		bs[i] = v
		if ranges != nil {
			c := eFalse
			for _, rg := range ranges {
				c = g.m.ctx.Or(c, g.inRange(v, rg[0], rg[1]))
			}
			g.assumeInput(c, v, ranges)
		}
	}
	g.record(InputRec{Name: name, str: bs, kind: "bytes"})
	return bs
}

// assumeInput restricts a fresh variable; satisfiable by construction, so no solver call is needed.
func (g *G) assumeInput(c *Expr, v *Expr, ranges [][2]byte) {
	p := g.m.path
	if g.m.ctx.Eval(c, p.model) == 0 {
		p.model[v] = uint64(ranges[0][0])
		g.m.ctx.newEpoch()
	}
	p.addPC(g.m.ctx, c)
}

func init() {
	s := func(name string, f func(g *G, a []Value) Value) { reg(symPkg+"."+name, f) }
	s("Int", func(g *G, a []Value) Value {
		name := cstr(a[0])
		lo, hi := a[1].(*Expr), a[2].(*Expr)
		ctx := g.m.ctx
		if span := hi.c - lo.c; lo.isConst() && hi.isConst() && int64(lo.c) <= int64(hi.c) && span < 1<<62 {
			// no wider than the range asks for: fewer bits for the solver, byte domains for small ranges
			w := uint8(8)
			for span > mask(w) {
				w++
			}
			v := g.freshVar("in:"+sanitize(name), w)
			e := ctx.Bin(opAdd, ctx.ZExt(v, 64), lo)
			g.record(InputRec{Name: name, e: e, kind: "int"})
			if span != mask(w) {
				g.m.path.addPC(ctx, ctx.ULe(v, mkConst(span, w)))
			}
			return e
		}
		v := g.scalarInput(name, 64)
		c := ctx.And(ctx.SLe(lo, v), ctx.SLe(v, hi))
		p := g.m.path
		if lo.isConst() && hi.isConst() {
			if g.m.ctx.Eval(c, p.model) == 0 {
				p.model[v] = lo.c
				ctx.newEpoch()
			}
			p.addPC(g.m.ctx, c)
			return v
		}
		g.assume(c)
		return v
	})
	s("Byte", func(g *G, a []Value) Value { return g.scalarInput(cstr(a[0]), 8) })
	s("Uint64", func(g *G, a []Value) Value { return g.scalarInput(cstr(a[0]), 64) })
	s("Bool", func(g *G, a []Value) Value {
		v := g.scalarInput(cstr(a[0]), 8)
		return g.m.ctx.Not(g.m.ctx.Eq(v, mkConst(0, 8)))
	})
	s("Choose", func(g *G, a []Value) Value {
		n := g.concInt(a[1], 0)
		i := g.choose(n)
		g.record(InputRec{Name: cstr(a[0]), kind: "choice", val: int64(i)})
		return i64(int64(i))
	})
	s("Bytes", func(g *G, a []Value) Value {
		return sliceOfBytes(g.bytesInput(cstr(a[0]), g.concInt(a[1], 0), nil))
	})
	s("String", func(g *G, a []Value) Value {
		return mkStr(g.bytesInput(cstr(a[0]), g.concInt(a[1], 0), nil))
	})
	s("Text", func(g *G, a []Value) Value {
		return mkStr(g.bytesInput(cstr(a[0]), g.concInt(a[1], 0), parseAlphabet(cstr(a[2]))))
	})
	s("Assume", func(g *G, a []Value) Value { g.assume(a[0].(*Expr)); return nil })
	s("Assert", func(g *G, a []Value) Value { g.assert(a[0].(*Expr), cstr(a[1]), "assert"); return nil })
	s("Fail", func(g *G, a []Value) Value { g.assert(eFalse, cstr(a[0]), "assert"); return nil })
	s("Observe", func(g *G, a []Value) Value {
		it := a[1].(Iface)
		g.m.path.obs = append(g.m.path.obs, obsRec{cstr(a[0]), copyVal(it.v), it.t})
		return nil
	})
	s("Reach", func(g *G, a []Value) Value { g.m.path.reached[cstr(a[0])] = true; return nil })
	s("Thorough", func(g *G, a []Value) Value { return mkBool(g.m.ex.tier == "thorough") })
	s("Native", func(g *G, a []Value) Value { return eFalse })
	s("Concurrent", func(g *G, a []Value) Value {
		p := g.m.path
		p.conc = true
		p.raceOn = true
		p.preempt = g.concInt(a[0], 0)
		return nil
	})
	s("Tries", func(g *G, a []Value) Value { return i64(1) })
	s("MapOrder", func(g *G, a []Value) Value { g.m.path.mapOrder = true; return nil })
	s("PoolAdversarial", func(g *G, a []Value) Value { g.m.path.poolAdv = true; return nil })
	s("PanicNil", func(g *G, a []Value) Value {
		g.m.path.replayPanicNil = g.branch(a[0].(*Expr))
		return nil
	})
	s("Entropy", func(g *G, a []Value) Value {
		p := g.m.path
		p.entropyOn, p.entropyPos, p.randSeq, p.entropy = true, 0, 0, nil
		b := a[0].(Slice)
		for i := range b {
			p.entropy = append(p.entropy, g.load(&b[i]).(*Expr))
		}
		return nil
	})
	s("EntropyUsed", func(g *G, a []Value) Value { return i64(int64(g.m.path.entropyPos)) })
	s("Go", func(g *G, a []Value) Value { g.spawn(a[0], nil, nil); return nil })
	s("Wait", func(g *G, a []Value) Value {
		p := g.m.path
		g.park("sym.Wait", func() bool {
			for _, o := range p.gs[1:] {
				if !o.done {
					return false
				}
			}
			return true
		})
		for _, o := range p.gs[1:] {
			g.acquire(o.vc)
		}
		return nil
	})
	s("Yield", func(g *G, a []Value) Value { g.gosched(); return nil })
	s("Advance", func(g *G, a []Value) Value { g.sleep(a[0].(*Expr)); return nil })
	s("And", func(g *G, a []Value) Value { return g.m.ctx.And(a[0].(*Expr), a[1].(*Expr)) })
	s("Or", func(g *G, a []Value) Value { return g.m.ctx.Or(a[0].(*Expr), a[1].(*Expr)) })
	s("Not", func(g *G, a []Value) Value { return g.m.ctx.Not(a[0].(*Expr)) })
	s("Iff", func(g *G, a []Value) Value { return g.m.ctx.Eq(a[0].(*Expr), a[1].(*Expr)) })
	s("IteInt", func(g *G, a []Value) Value { return g.m.ctx.Ite(a[0].(*Expr), a[1].(*Expr), a[2].(*Expr)) })
	s("IsStop", func(g *G, a []Value) Value { return eFalse })
	_ = types.Identical
	_ = ssa.NewConst
}

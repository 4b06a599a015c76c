package main

import (
	"encoding/base64"
	"fmt"
	"go/types"
	"math"
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- helpers ----

func fieldIx(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(unsupported("no field " + name))
}

func (g *G) globalVal(pkg, name string) Value {
	p := g.m.P.pkgs[pkg]
	if p == nil {
		panic(unsupported("package not loaded " + pkg))
	}
	return *g.m.global(g, p.Var(name))
}

func (g *G) simpleErr(s Value) Iface { return g.newStructPtr("errors", "errorString", s) }

// ---- time ----

// The virtual clock reads clock0 at 2000-01-01T00:00:00Z, far enough from zero that it stays
// positive when expiries lie in the past.
const clock0 = 500000000 * 1000000000
const secField2000 = 3628972800 - 500000000 // seconds since 1885 when the clock reads zero
const unix0 = (946684800 - 500000000) * 1000000000
const hasMono = uint64(1) << 63

func (g *G) mkTime(ns *Expr) Value {
	ctx := g.m.ctx
	g9 := mkConst(1000000000, 64)
	sec := ctx.Bin(opUDiv, ns, g9)
	nsec := ctx.Bin(opURem, ns, g9)
	w := ctx.Bin(opBOr, ctx.Bin(opShl, ctx.Bin(opAdd, sec, mkConst(secField2000, 64)), mkConst(30, 64)), nsec)
	w = ctx.Bin(opBOr, w, mkConst(hasMono, 64))
	return Struct{w, ns, g.globalVal("time", "Local")}
}

// monoExt returns the monotonic reading when v carries one.
func monoExt(v Value) (*Expr, bool) {
	s, ok := v.(Struct)
	if !ok || len(s) != 3 {
		return nil, false
	}
	w, ok := s[0].(*Expr)
	if !ok {
		return nil, false
	}
	has := false
	if w.isConst() {
		has = w.c&hasMono != 0
	} else if w.op == opBOr {
		has = w.a.isConst() && w.a.c&hasMono != 0 || w.b.isConst() && w.b.c&hasMono != 0
	}
	if !has {
		return nil, false
	}
	return s[1].(*Expr), true
}

func (g *G) addTimer(d *Expr, f func(g *G)) *vtimer {
	ctx := g.m.ctx
	p := g.m.path
	d = ctx.Ite(ctx.SLt(d, mkConst(0, 64)), mkConst(0, 64), d)
	t := &vtimer{at: ctx.Bin(opAdd, p.clock, d), fire: f}
	p.timers = append(p.timers, t)
	return t
}

func init() {
	reg("time.Now", func(g *G, a []Value) Value { return g.mkTime(g.m.path.clock) })
	reg("time.Sleep", func(g *G, a []Value) Value { g.sleep(a[0].(*Expr)); return nil })
	reg("time.initLocal", func(g *G, a []Value) Value { return nil })
	reg("time.runtimeNano", func(g *G, a []Value) Value { return g.m.path.clock })
	reg("time.now", func(g *G, a []Value) Value { panic(unsupported("time.now")) })
	cmp := func(name string, f func(c *Ctx, x, y *Expr) Value) {
		regT("(time.Time)."+name, func(g *G, a []Value) (Value, bool) {
			x, ok1 := monoExt(a[0])
			y, ok2 := monoExt(a[1])
			if !ok1 || !ok2 {
				return nil, false
			}
			return f(g.m.ctx, x, y), true
		})
	}
	cmp("Before", func(c *Ctx, x, y *Expr) Value { return c.SLt(x, y) })
	cmp("After", func(c *Ctx, x, y *Expr) Value { return c.SLt(y, x) })
	cmp("Equal", func(c *Ctx, x, y *Expr) Value { return c.Eq(x, y) })
	cmp("Sub", func(c *Ctx, x, y *Expr) Value { return c.Bin(opSub, x, y) })
	cmp("Compare", func(c *Ctx, x, y *Expr) Value {
		return c.Ite(c.SLt(x, y), i64(-1), c.Ite(c.SLt(y, x), i64(1), i64(0)))
	})
	regT("(time.Time).UnixNano", func(g *G, a []Value) (Value, bool) {
		x, ok := monoExt(a[0])
		if !ok {
			return nil, false
		}
		return g.m.ctx.Bin(opAdd, x, mkConst(unix0, 64)), true
	})
	for n, u := range map[string]uint64{"Unix": 1000000000, "UnixMilli": 1000000, "UnixMicro": 1000} {
		u := u
		regT("(time.Time)."+n, func(g *G, a []Value) (Value, bool) {
			x, ok := monoExt(a[0])
			if !ok {
				return nil, false
			}
			return g.m.ctx.Bin(opUDiv, g.m.ctx.Bin(opAdd, x, mkConst(unix0, 64)), mkConst(u, 64)), true
		})
	}
	regT("(time.Time).Add", func(g *G, a []Value) (Value, bool) {
		x, ok := monoExt(a[0])
		d := a[1].(*Expr)
		if !ok {
			return nil, false
		}
		ctx := g.m.ctx
		te := ctx.Bin(opAdd, x, d)
		// out of the range of the monotonic clock, or before its epoch: outside the model
		if g.branch(ctx.Or(ctx.And(ctx.SLt(d, mkConst(0, 64)), ctx.SLt(x, te)), ctx.And(ctx.SLt(mkConst(0, 64), d), ctx.SLt(te, x)))) {
			panic(unsupported("time overflow"))
		}
		return g.mkTime2(a[0], te), true
	})
	reg("time.Since", func(g *G, a []Value) Value {
		x, ok := monoExt(a[0])
		if !ok {
			panic(unsupported("time.Since of a wall-only time"))
		}
		return g.m.ctx.Bin(opSub, g.m.path.clock, x)
	})
	reg("time.Until", func(g *G, a []Value) Value {
		x, ok := monoExt(a[0])
		if !ok {
			panic(unsupported("time.Until of a wall-only time"))
		}
		return g.m.ctx.Bin(opSub, x, g.m.path.clock)
	})
	// timers: the *Timer is an ordinary struct whose C channel is fed by the virtual clock
	newTimer := func(g *G, d *Expr, fn Value) Value {
		tt := g.m.P.typeOf("time", "Timer")
		s := zero(tt).(Struct)
		p := new(Value)
		*p = s
		var ch *Chan
		if fn == nil {
			ch = &Chan{cap: 1, et: g.m.P.typeOf("time", "Time")}
			s[fieldIx(tt, "C")] = ch
		}
		fire := func(g *G) {
			if ch != nil {
				if len(ch.buf) == 0 {
					if !g.fireRecv(ch, g.mkTime(g.m.path.clock), true) {
						ch.buf = append(ch.buf, bufItem{g.mkTime(g.m.path.clock), nil})
					}
				}
				return
			}
			g.spawnTimer(fn)
		}
		t := g.addTimer(d, fire)
		g.m.path.sides[p] = t
		return p
	}
	reg("time.NewTimer", func(g *G, a []Value) Value { return newTimer(g, a[0].(*Expr), nil) })
	reg("time.AfterFunc", func(g *G, a []Value) Value { return newTimer(g, a[0].(*Expr), a[1]) })
	reg("time.After", func(g *G, a []Value) Value {
		p := newTimer(g, a[0].(*Expr), nil).(*Value)
		return (*p).(Struct)[fieldIx(g.m.P.typeOf("time", "Timer"), "C")]
	})
	reg("(*time.Timer).Stop", func(g *G, a []Value) Value {
		t, _ := g.m.path.sides[nonNil(g, a[0])].(*vtimer)
		if t == nil {
			return eFalse
		}
		was := !t.stopped && !t.fired
		t.stopped = true
		return mkBool(was)
	})
	reg("(*time.Timer).Reset", func(g *G, a []Value) Value {
		t, _ := g.m.path.sides[nonNil(g, a[0])].(*vtimer)
		if t == nil {
			panic(unsupported("Timer.Reset"))
		}
		was := !t.stopped && !t.fired
		t.stopped = true
		g.m.path.sides[nonNil(g, a[0])] = g.addTimer(a[1].(*Expr), t.fire)
		return mkBool(was)
	})
}

func (g *G) mkTime2(old Value, te *Expr) Value {
	r := g.mkTime(te).(Struct)
	r[2] = old.(Struct)[2]
	return r
}

// spawnTimer runs fn on its own goroutine when a timer fires.
func (g *G) spawnTimer(fn Value) {
	g.spawn(fn, nil, nil)
}

// ---- regexp ----

type reModel struct {
	re   *regexp.Regexp
	src  string
	prog *syntax.Prog
}

func (g *G) compileRe(a Value, posix bool) (*Opaque, error) {
	src := cstr(a)
	if o, ok := g.m.regexCache[src]; ok && !posix {
		// distinct pointers per compilation
		g.m.opqSeq++
		return &Opaque{kind: "regexp", v: o.v, id: g.m.opqSeq}, nil
	}
	re, err := regexp.Compile(src)
	if err != nil {
		return nil, err
	}
	sx, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(sx.Simplify())
	if err != nil {
		return nil, err
	}
	g.m.opqSeq++
	o := &Opaque{kind: "regexp", v: &reModel{re, src, prog}, id: g.m.opqSeq}
	g.m.regexCache[src] = o
	return o, nil
}

func reOf(g *G, v Value) *reModel {
	o, ok := v.(*Opaque)
	if !ok {
		if isNilPtr(v) {
			g.rtPanic("invalid memory address or nil pointer dereference")
		}
		panic(unsupported("regexp value"))
	}
	return o.v.(*reModel)
}

// matchFormula is the condition under which the expression matches somewhere in s (ASCII bytes).
func (g *G) matchFormula(prog *syntax.Prog, s []*Expr) *Expr {
	ctx := g.m.ctx
	n := len(s)
	word := func(i int) *Expr {
		if i < 0 || i >= n {
			return eFalse
		}
		b := s[i]
		return ctx.Or(ctx.Or(g.inRange(b, 'a', 'z'), g.inRange(b, 'A', 'Z')), ctx.Or(g.inRange(b, '0', '9'), ctx.Eq(b, mkConst('_', 8))))
	}
	emptyCond := func(op syntax.EmptyOp, pos int) *Expr {
		r := eTrue
		if op&syntax.EmptyBeginText != 0 && pos != 0 {
			return eFalse
		}
		if op&syntax.EmptyEndText != 0 && pos != n {
			return eFalse
		}
		if op&syntax.EmptyBeginLine != 0 && pos != 0 {
			r = ctx.And(r, ctx.Eq(s[pos-1], mkConst('\n', 8)))
		}
		if op&syntax.EmptyEndLine != 0 && pos != n {
			r = ctx.And(r, ctx.Eq(s[pos], mkConst('\n', 8)))
		}
		if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			w := ctx.Not(ctx.Eq(word(pos-1), word(pos)))
			if op&syntax.EmptyWordBoundary != 0 {
				r = ctx.And(r, w)
			}
			if op&syntax.EmptyNoWordBoundary != 0 {
				r = ctx.And(r, ctx.Not(w))
			}
		}
		return r
	}
	matched := eFalse
	cur := map[uint32]*Expr{}
	addAt := func(set map[uint32]*Expr, pc uint32, cond *Expr, pos int) {
		var walk func(pc uint32, cond *Expr, on map[uint32]bool)
		walk = func(pc uint32, cond *Expr, on map[uint32]bool) {
			if cond.isFalse() || on[pc] {
				return
			}
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				on[pc] = true
				walk(in.Out, cond, on)
				walk(in.Arg, cond, on)
				delete(on, pc)
			case syntax.InstCapture, syntax.InstNop:
				on[pc] = true
				walk(in.Out, cond, on)
				delete(on, pc)
			case syntax.InstEmptyWidth:
				on[pc] = true
				walk(in.Out, ctx.And(cond, emptyCond(syntax.EmptyOp(in.Arg), pos)), on)
				delete(on, pc)
			case syntax.InstMatch:
				matched = ctx.Or(matched, cond)
			case syntax.InstFail:
			default:
				if o, ok := set[pc]; ok {
					set[pc] = ctx.Or(o, cond)
				} else {
					set[pc] = cond
				}
			}
		}
		walk(pc, cond, map[uint32]bool{})
	}
	for pos := 0; pos <= n; pos++ {
		// a new attempt may start anywhere
		addAt(cur, uint32(prog.Start), eTrue, pos)
		if pos == n {
			break
		}
		next := map[uint32]*Expr{}
		var pcs []int
		for pc := range cur {
			pcs = append(pcs, int(pc))
		}
		sort.Ints(pcs)
		for _, p := range pcs {
			pc := uint32(p)
			in := &prog.Inst[pc]
			c := eFalse
			// the accepted ASCII bytes as ranges
			for lo := 0; lo < 128; lo++ {
				if !in.MatchRune(rune(lo)) {
					continue
				}
				hi := lo
				for hi+1 < 128 && in.MatchRune(rune(hi+1)) {
					hi++
				}
				c = ctx.Or(c, g.inRange(s[pos], byte(lo), byte(hi)))
				lo = hi
			}
			addAt(next, in.Out, ctx.And(cur[pc], c), pos+1)
		}
		cur = next
	}
	return matched
}

func init() {
	compile := func(g *G, a []Value) Value {
		o, err := g.compileRe(a[0], false)
		if err != nil {
			return Tuple{(*Value)(nil), g.simpleErr(err.Error())}
		}
		return Tuple{o, Iface{}}
	}
	reg("regexp.Compile", compile)
	reg("regexp.CompilePOSIX", compile)
	reg("regexp.MustCompile", func(g *G, a []Value) Value {
		o, err := g.compileRe(a[0], false)
		if err != nil {
			panic(targetPanic{Iface{types.Typ[types.String], "regexp: Compile: " + err.Error()}, g.m.srcLoc()})
		}
		return o
	})
	match := func(g *G, re *reModel, b []*Expr) Value {
		if s, ok := allConst(b); ok {
			return mkBool(re.re.MatchString(s))
		}
		if !g.branch(g.allASCII(b)) {
			panic(unsupported("regular expression over symbolic non-ASCII text"))
		}
		return g.matchFormula(re.prog, b)
	}
	reg("(*regexp.Regexp).MatchString", func(g *G, a []Value) Value { return match(g, reOf(g, a[0]), strBytes(a[1])) })
	reg("(*regexp.Regexp).Match", func(g *G, a []Value) Value { return match(g, reOf(g, a[0]), bytesOfSlice(a[1])) })
	reg("regexp.MatchString", func(g *G, a []Value) Value {
		o, err := g.compileRe(a[0], false)
		if err != nil {
			return Tuple{eFalse, g.simpleErr(err.Error())}
		}
		return Tuple{match(g, o.v.(*reModel), strBytes(a[1])), Iface{}}
	})
	reg("(*regexp.Regexp).String", func(g *G, a []Value) Value { return reOf(g, a[0]).src })
	reg("(*regexp.Regexp).NumSubexp", func(g *G, a []Value) Value { return i64(int64(reOf(g, a[0]).re.NumSubexp())) })
	reg("(*regexp.Regexp).FindString", func(g *G, a []Value) Value { return reOf(g, a[0]).re.FindString(cstr(a[1])) })
	reg("(*regexp.Regexp).FindStringIndex", func(g *G, a []Value) Value {
		var r Slice
		for _, x := range reOf(g, a[0]).re.FindStringIndex(cstr(a[1])) {
			r = append(r, i64(int64(x)))
		}
		return r
	})
	reg("(*regexp.Regexp).FindStringSubmatch", func(g *G, a []Value) Value {
		var r Slice
		for _, x := range reOf(g, a[0]).re.FindStringSubmatch(cstr(a[1])) {
			r = append(r, x)
		}
		return r
	})
	reg("(*regexp.Regexp).ReplaceAllString", func(g *G, a []Value) Value {
		return reOf(g, a[0]).re.ReplaceAllString(cstr(a[1]), cstr(a[2]))
	})
	reg("regexp.QuoteMeta", func(g *G, a []Value) Value { return regexp.QuoteMeta(cstr(a[0])) })
	// (?-comments need no model) text handling used while validating patterns is interpreted
}

// ---- JSON ----

type jnode struct {
	kind byte // n b # s a o
	b    bool
	num  string
	str  Value
	arr  []*jnode
	keys []Value
}

type jparse struct {
	g   *G
	b   []*Expr
	pos int
}

type jerr struct{ msg string }

func (p *jparse) at(i int) byte {
	e := p.b[i]
	if e.isConst() {
		return byte(e.c)
	}
	return byte(p.g.concretize(e))
}

func (p *jparse) ws() {
	for p.pos < len(p.b) {
		switch p.at(p.pos) {
		case ' ', '\t', '\r', '\n':
			p.pos++
		default:
			return
		}
	}
}

func (p *jparse) fail(what string) {
	panic(jerr{"invalid character " + what})
}

func (p *jparse) need() byte {
	if p.pos >= len(p.b) {
		panic(jerr{"unexpected end of JSON input"})
	}
	return p.at(p.pos)
}

func (p *jparse) value(depth int) *jnode {
	if depth > 200 {
		panic(unsupported("JSON depth"))
	}
	p.ws()
	c := p.need()
	switch {
	case c == '{':
		p.pos++
		n := &jnode{kind: 'o'}
		p.ws()
		if p.need() == '}' {
			p.pos++
			return n
		}
		for {
			p.ws()
			if p.need() != '"' {
				p.fail("looking for beginning of object key string")
			}
			k := p.str()
			p.ws()
			if p.need() != ':' {
				p.fail("after object key")
			}
			p.pos++
			v := p.value(depth + 1)
			n.keys = append(n.keys, k)
			n.arr = append(n.arr, v)
			p.ws()
			d := p.need()
			p.pos++
			if d == '}' {
				return n
			}
			if d != ',' {
				p.fail("after object key:value pair")
			}
		}
	case c == '[':
		p.pos++
		n := &jnode{kind: 'a'}
		p.ws()
		if p.need() == ']' {
			p.pos++
			return n
		}
		for {
			n.arr = append(n.arr, p.value(depth+1))
			p.ws()
			d := p.need()
			p.pos++
			if d == ']' {
				return n
			}
			if d != ',' {
				p.fail("after array element")
			}
		}
	case c == '"':
		return &jnode{kind: 's', str: p.str()}
	case c == '-' || c >= '0' && c <= '9':
		st := p.pos
		for p.pos < len(p.b) && strings.IndexByte("+-0123456789.eE", p.at(p.pos)) >= 0 {
			p.pos++
		}
		bs := make([]byte, 0, p.pos-st)
		for i := st; i < p.pos; i++ {
			bs = append(bs, p.at(i))
		}
		if !validNum(string(bs)) {
			p.fail("in numeric literal")
		}
		return &jnode{kind: '#', num: string(bs)}
	}
	for _, w := range []string{"true", "false", "null"} {
		if c == w[0] {
			for i := 0; i < len(w); i++ {
				if p.pos+i >= len(p.b) {
					panic(jerr{"unexpected end of JSON input"})
				}
				if p.at(p.pos+i) != w[i] {
					p.fail("in literal " + w)
				}
			}
			p.pos += len(w)
			if w == "null" {
				return &jnode{kind: 'n'}
			}
			return &jnode{kind: 'b', b: w == "true"}
		}
	}
	p.fail("looking for beginning of value")
	return nil
}

var numRe = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)

func validNum(s string) bool { return numRe.MatchString(s) }

func (p *jparse) str() Value {
	p.pos++
	var out []*Expr
	ctx := p.g.m.ctx
	for {
		if p.pos >= len(p.b) {
			panic(jerr{"unexpected end of JSON input"})
		}
		e := p.b[p.pos]
		if !e.isConst() {
			plain := ctx.And(p.g.inRange(e, 0x20, 0x7e), ctx.And(ctx.Not(ctx.Eq(e, mkConst('"', 8))), ctx.Not(ctx.Eq(e, mkConst('\\', 8)))))
			if p.g.branch(plain) {
				out = append(out, e)
				p.pos++
				continue
			}
			e = mkConst(p.g.concretize(e), 8)
			if e.c >= 0x80 {
				panic(unsupported("symbolic non-ASCII byte in JSON text"))
			}
		}
		c := byte(e.c)
		switch {
		case c == '"':
			p.pos++
			return mkStr(out)
		case c == '\\':
			p.pos++
			if p.pos >= len(p.b) {
				panic(jerr{"unexpected end of JSON input"})
			}
			d := p.at(p.pos)
			p.pos++
			switch d {
			case '"', '\\', '/':
				out = append(out, mkConst(uint64(d), 8))
			case 'b':
				out = append(out, mkConst(8, 8))
			case 'f':
				out = append(out, mkConst(12, 8))
			case 'n':
				out = append(out, mkConst(10, 8))
			case 'r':
				out = append(out, mkConst(13, 8))
			case 't':
				out = append(out, mkConst(9, 8))
			case 'u':
				if p.pos+4 > len(p.b) {
					panic(jerr{"unexpected end of JSON input"})
				}
				var h []byte
				for i := 0; i < 4; i++ {
					h = append(h, p.at(p.pos+i))
				}
				v, err := strconv.ParseUint(string(h), 16, 16)
				if err != nil {
					p.fail("in \\u hexadecimal character escape")
				}
				p.pos += 4
				for _, b := range []byte(string(rune(v))) {
					out = append(out, mkConst(uint64(b), 8))
				}
			default:
				p.fail("in string escape code")
			}
		case c < 0x20:
			p.fail("in string literal")
		default:
			out = append(out, e)
			p.pos++
		}
	}
}

// parseJSON parses one value; rest is the number of bytes consumed.
func (g *G) parseJSON(b []*Expr) (n *jnode, used int, err string) {
	p := &jparse{g: g, b: b}
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jerr); ok {
				err = je.msg
				used = p.pos
				return
			}
			panic(r)
		}
	}()
	n = p.value(0)
	used = p.pos
	return
}

func (g *G) jAny(n *jnode, useNum bool) Iface {
	switch n.kind {
	case 'n':
		return Iface{}
	case 'b':
		return Iface{types.Typ[types.Bool], mkBool(n.b)}
	case '#':
		if useNum {
			return Iface{g.m.P.typeOf("encoding/json", "Number"), n.num}
		}
		f, _ := strconv.ParseFloat(n.num, 64)
		return Iface{types.Typ[types.Float64], f}
	case 's':
		return Iface{types.Typ[types.String], n.str}
	case 'a':
		s := make(Slice, 0, len(n.arr))
		for _, c := range n.arr {
			s = append(s, g.jAny(c, useNum))
		}
		return Iface{types.NewSlice(anyType), s}
	}
	mp := g.newMap(types.Typ[types.String])
	for i, k := range n.keys {
		g.mapSet(mp, k, g.jAny(n.arr[i], useNum))
	}
	return Iface{types.NewMap(types.Typ[types.String], anyType), mp}
}

var anyType types.Type = types.NewInterfaceType(nil, nil)

// jAssign stores n into the cell of type t; it returns the first type mismatch.
func (g *G) jAssign(n *jnode, t types.Type, cell *Value, useNum bool) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n.kind == 'n' {
			g.storeCell(cell, (*Value)(nil))
			return ""
		}
		p, _ := (*cell).(*Value)
		if p == nil {
			p = new(Value)
			*p = zero(pt.Elem())
			g.storeCell(cell, p)
		}
		return g.jAssign(n, pt.Elem(), p, useNum)
	}
	if fn := g.m.lookupMethodByName(types.NewPointer(t), "UnmarshalJSON"); fn != nil {
		panic(unsupported("json.Unmarshaler"))
	}
	mism := func() string {
		kind := map[byte]string{'b': "bool", '#': "number " + n.num, 's': "string", 'a': "array", 'o': "object"}[n.kind]
		return "json: cannot unmarshal " + kind + " into Go value of type " + t.String()
	}
	if n.kind == 'n' {
		switch t.Underlying().(type) {
		case *types.Interface, *types.Map, *types.Slice:
			g.storeCell(cell, zero(t))
		}
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			return mism()
		}
		g.storeCell(cell, g.jAny(n, useNum))
		return ""
	case *types.Map:
		if n.kind != 'o' {
			return mism()
		}
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			panic(unsupported("json into map with non-string keys"))
		}
		mp, _ := (*cell).(*Map)
		if mp == nil {
			mp = g.newMap(u.Key())
			g.storeCell(cell, mp)
		}
		first := ""
		for i, k := range n.keys {
			tmp := new(Value)
			*tmp = zero(u.Elem())
			if e := g.jAssign(n.arr[i], u.Elem(), tmp, useNum); e != "" && first == "" {
				first = e
			}
			g.mapSet(mp, k, *tmp)
		}
		return first
	case *types.Slice:
		if n.kind != 'a' {
			if n.kind == 's' {
				if w, _, ok := intWidth(u.Elem()); ok && w == 8 {
					panic(unsupported("json base64"))
				}
			}
			return mism()
		}
		s := make(Slice, len(n.arr))
		first := ""
		for i := range s {
			s[i] = zero(u.Elem())
			if e := g.jAssign(n.arr[i], u.Elem(), &s[i], useNum); e != "" && first == "" {
				first = e
			}
		}
		g.storeCell(cell, s)
		return first
	case *types.Struct:
		if n.kind != 'o' {
			return mism()
		}
		st := (*cell).(Struct)
		first := ""
		for i, k := range n.keys {
			ks, ok := k.(string)
			if !ok {
				panic(unsupported("symbolic JSON key into a struct"))
			}
			best := -1
			for f := 0; f < u.NumFields(); f++ {
				if !u.Field(f).Exported() {
					continue
				}
				name, _, skip := jsonTag(u, f)
				if skip {
					continue
				}
				if name == ks {
					best = f
					break
				}
				if best < 0 && strings.EqualFold(name, ks) {
					best = f
				}
			}
			if best < 0 {
				continue
			}
			if e := g.jAssign(n.arr[i], u.Field(best).Type(), &st[best], useNum); e != "" && first == "" {
				first = e
			}
		}
		return first
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsString != 0:
			if n.kind == '#' && typeKey(t) == "encoding/json.Number" {
				g.storeCell(cell, n.num)
				return ""
			}
			if n.kind != 's' {
				return mism()
			}
			g.storeCell(cell, n.str)
			return ""
		case info&types.IsBoolean != 0:
			if n.kind != 'b' {
				return mism()
			}
			g.storeCell(cell, mkBool(n.b))
			return ""
		case info&types.IsFloat != 0:
			if n.kind != '#' {
				return mism()
			}
			f, err := strconv.ParseFloat(n.num, 64)
			if err != nil {
				return mism()
			}
			g.storeCell(cell, f)
			return ""
		case info&types.IsInteger != 0:
			if n.kind != '#' {
				return mism()
			}
			w, signed, _ := intWidth(u)
			if signed {
				v, err := strconv.ParseInt(n.num, 10, int(w))
				if err != nil {
					return mism()
				}
				g.storeCell(cell, mkConst(uint64(v), w))
			} else {
				v, err := strconv.ParseUint(n.num, 10, int(w))
				if err != nil {
					return mism()
				}
				g.storeCell(cell, mkConst(v, w))
			}
			return ""
		}
	}
	panic(unsupported("json into " + t.String()))
}

func jsonTag(st *types.Struct, i int) (name string, omitempty, skip bool) {
	tag := reflectTag(st.Tag(i), "json")
	if tag == "-" {
		return "", false, true
	}
	parts := strings.Split(tag, ",")
	name = parts[0]
	for _, o := range parts[1:] {
		switch o {
		case "omitempty":
			omitempty = true
		default:
			panic(unsupported("json tag option " + o))
		}
	}
	if name == "" {
		name = st.Field(i).Name()
	}
	return
}

func reflectTag(tag, key string) string {
	for tag != "" {
		i := strings.IndexByte(tag, ':')
		if i < 0 || i+1 >= len(tag) || tag[i+1] != '"' {
			return ""
		}
		name := strings.TrimSpace(tag[:i])
		rest := tag[i+1:]
		j := 1
		for j < len(rest) && rest[j] != '"' {
			if rest[j] == '\\' {
				j++
			}
			j++
		}
		if j >= len(rest) {
			return ""
		}
		v, _ := strconv.Unquote(rest[:j+1])
		if name == key {
			return v
		}
		tag = strings.TrimLeft(rest[j+1:], " ")
	}
	return ""
}

// jMarshal is json.Marshal (HTML escaping on). A non-empty error string reports failure.
func (g *G) jMarshal(t types.Type, v Value, depth int) (Value, *Iface) {
	if depth > 60 {
		panic(unsupported("json.Marshal depth"))
	}
	errf := func(s string) *Iface { e := g.simpleErr(s); return &e }
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "null", nil
		}
		if _, isI := t.Underlying().(*types.Interface); isI {
			return g.jMarshal(i.t, i.v, depth+1)
		}
	}
	if isNilPtr(v) {
		return "null", nil
	}
	if fn := g.m.lookupMethodByName(t, "MarshalJSON"); fn != nil && fn.Signature.Params().Len() == 0 {
		r := g.invoke(Iface{t, v}, "MarshalJSON", nil).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return nil, &e
		}
		return mkStr(bytesOfSlice(r[0])), nil
	}
	if fn := g.m.lookupMethodByName(t, "MarshalText"); fn != nil && fn.Signature.Params().Len() == 0 {
		r := g.invoke(Iface{t, v}, "MarshalText", nil).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return nil, &e
		}
		return g.jQuote(mkStr(bytesOfSlice(r[0]))), nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return g.jMarshal(u.Elem(), g.load(v), depth+1)
	case *types.Basic:
		switch x := v.(type) {
		case string, *SymStr:
			return g.jQuote(x), nil
		case *Expr:
			if x.w == 0 {
				if g.branch(x) {
					return "true", nil
				}
				return "false", nil
			}
			return g.fmtArg("%d", 'd', Iface{t, x}), nil
		case float64:
			if math.IsInf(x, 0) || math.IsNaN(x) {
				return nil, errf("json: unsupported value: " + strconv.FormatFloat(x, 'g', -1, 64))
			}
			abs := math.Abs(x)
			f := byte('f')
			if abs != 0 && (abs < 1e-6 || abs >= 1e21) {
				panic(unsupported("json float exponent"))
			}
			return strconv.FormatFloat(x, f, -1, 64), nil
		}
	case *types.Map:
		mp := v.(*Map)
		if mp == nil {
			return "null", nil
		}
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			panic(unsupported("json map key type"))
		}
		type kv struct {
			k Value
			v Value
		}
		var ents []kv
		if g.m.path.raceOn {
			g.raceRead(&mp.race)
		}
		for _, e := range mp.ents {
			if !e.deleted {
				ents = append(ents, kv{*e.k, *e.v})
			}
		}
		// insertion sort, with symbolic comparisons where needed
		for i := 1; i < len(ents); i++ {
			for j := i; j > 0 && g.branch(g.strLess(ents[j].k, ents[j-1].k)); j-- {
				ents[j], ents[j-1] = ents[j-1], ents[j]
			}
		}
		var r Value = "{"
		for i, e := range ents {
			if i > 0 {
				r = strConcat(r, ",")
			}
			r = strConcat(r, g.jQuote(e.k))
			r = strConcat(r, ":")
			x, err := g.jMarshal(u.Elem(), e.v, depth+1)
			if err != nil {
				return nil, err
			}
			r = strConcat(r, x)
		}
		return strConcat(r, "}"), nil
	case *types.Slice:
		s := v.(Slice)
		if s == nil {
			return "null", nil
		}
		if w, _, ok := intWidth(u.Elem()); ok && w == 8 {
			c, ok := allConst(bytesOfSlice(s))
			if !ok {
				panic(unsupported("json base64 of symbolic bytes"))
			}
			return `"` + base64.StdEncoding.EncodeToString([]byte(c)) + `"`, nil
		}
		return g.jList(u.Elem(), s, depth)
	case *types.Array:
		return g.jList(u.Elem(), Slice(v.(Array)), depth)
	case *types.Struct:
		st := v.(Struct)
		var r Value = "{"
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Embedded() {
				panic(unsupported("json of embedded struct"))
			}
			if !f.Exported() {
				continue
			}
			name, omit, skip := jsonTag(u, i)
			if skip || omit && g.jEmpty(st[i]) {
				continue
			}
			if n > 0 {
				r = strConcat(r, ",")
			}
			n++
			r = strConcat(r, g.jQuote(name))
			r = strConcat(r, ":")
			x, err := g.jMarshal(f.Type(), st[i], depth+1)
			if err != nil {
				return nil, err
			}
			r = strConcat(r, x)
		}
		return strConcat(r, "}"), nil
	case *types.Signature, *types.Chan:
		return nil, errf("json: unsupported type: " + t.String())
	}
	panic(unsupported("json.Marshal of " + t.String()))
}

func (g *G) jList(et types.Type, s Slice, depth int) (Value, *Iface) {
	var r Value = "["
	for i := range s {
		if i > 0 {
			r = strConcat(r, ",")
		}
		x, err := g.jMarshal(et, s[i], depth+1)
		if err != nil {
			return nil, err
		}
		r = strConcat(r, x)
	}
	return strConcat(r, "]"), nil
}

func (g *G) jEmpty(v Value) bool {
	switch x := v.(type) {
	case string, *SymStr:
		return strLen(x) == 0
	case *Expr:
		if x.w == 0 {
			return !g.branch(x)
		}
		return g.branch(g.m.ctx.Eq(x, mkConst(0, x.w)))
	case float64:
		return x == 0
	case Slice:
		return len(x) == 0
	case *Map:
		return x == nil || x.n == 0
	case Iface:
		return x.t == nil
	case *Value:
		return x == nil
	}
	return false
}

func (g *G) jQuote(s Value) Value {
	ctx := g.m.ctx
	out := []*Expr{mkConst('"', 8)}
	lit := func(t string) {
		for i := 0; i < len(t); i++ {
			out = append(out, mkConst(uint64(t[i]), 8))
		}
	}
	it := &strIter{s: s}
	n := strLen(s)
	for it.pos < n {
		e := strByte(s, it.pos)
		if !e.isConst() {
			plain := g.inRange(e, 0x20, 0x7f)
			for _, c := range []byte{'"', '\\', '<', '>', '&'} {
				plain = ctx.And(plain, ctx.Not(ctx.Eq(e, mkConst(uint64(c), 8))))
			}
			if g.branch(plain) {
				out = append(out, e)
				it.pos++
				continue
			}
			if g.branch(ctx.ULt(e, mkConst(0x80, 8))) {
				e = mkConst(g.concretize(e), 8)
			}
		}
		if e.isConst() && e.c < 0x80 {
			c := byte(e.c)
			switch c {
			case '"', '\\':
				lit("\\" + string(rune(c)))
			case '\b':
				lit(`\b`)
			case '\f':
				lit(`\f`)
			case '\n':
				lit(`\n`)
			case '\r':
				lit(`\r`)
			case '\t':
				lit(`\t`)
			case '<', '>', '&':
				lit(fmt.Sprintf(`\u00%02x`, c))
			default:
				if c < 0x20 {
					lit(fmt.Sprintf(`\u00%02x`, c))
				} else {
					out = append(out, e)
				}
			}
			it.pos++
			continue
		}
		start := it.pos
		t := g.strNext(it)
		r := t[2].(*Expr)
		if it.pos-start == 1 {
			lit(`\ufffd`)
			continue
		}
		if it.pos-start == 3 && g.branch(ctx.Eq(r, mkConst(0x2028, 32))) {
			lit(`\u2028`)
			continue
		}
		if it.pos-start == 3 && g.branch(ctx.Eq(r, mkConst(0x2029, 32))) {
			lit(`\u2029`)
			continue
		}
		for i := start; i < it.pos; i++ {
			out = append(out, strByte(s, i))
		}
	}
	lit(`"`)
	return mkStr(out)
}

type jdec struct {
	r       Iface
	buf     []*Expr
	eof     bool
	useNum  bool
	readErr Iface
	stored  *Iface
}

func (g *G) readAll(r Iface) ([]*Expr, Iface) {
	eof := g.globalVal("io", "EOF")
	var out []*Expr
	zeros := 0
	for {
		s := make(Slice, 512)
		for i := range s {
			s[i] = smallConst[8][0]
		}
		res := g.invoke(r, "Read", []Value{s}).(Tuple)
		n := g.concInt(res[0], 0)
		for i := 0; i < n; i++ {
			out = append(out, s[i].(*Expr))
		}
		if e := res[1].(Iface); e.t != nil {
			if g.branch(g.equals(e, eof)) {
				return out, Iface{}
			}
			return out, e
		}
		if n == 0 {
			if zeros++; zeros > 100 {
				panic(unsupported("reader returns no data"))
			}
		}
	}
}

func init() {
	reg("encoding/json.Marshal", func(g *G, a []Value) Value {
		it := a[0].(Iface)
		if it.t == nil {
			return Tuple{sliceOfString("null"), Iface{}}
		}
		s, err := g.jMarshal(it.t, it.v, 0)
		if err != nil {
			return Tuple{Slice(nil), *err}
		}
		return Tuple{sliceOfBytes(strBytes(s)), Iface{}}
	})
	reg("encoding/json.NewEncoder", func(g *G, a []Value) Value {
		g.m.opqSeq++
		return &Opaque{kind: "jsonenc", v: a[0].(Iface), id: g.m.opqSeq}
	})
	reg("(*encoding/json.Encoder).Encode", func(g *G, a []Value) Value {
		w := a[0].(*Opaque).v.(Iface)
		it := a[1].(Iface)
		var s Value = "null"
		if it.t != nil {
			var err *Iface
			s, err = g.jMarshal(it.t, it.v, 0)
			if err != nil {
				return *err
			}
		}
		r := g.invoke(w, "Write", []Value{sliceOfBytes(strBytes(strConcat(s, "\n")))}).(Tuple)
		return r[1]
	})
	reg("encoding/json.NewDecoder", func(g *G, a []Value) Value {
		g.m.opqSeq++
		return &Opaque{kind: "jsondec", v: &jdec{r: a[0].(Iface)}, id: g.m.opqSeq}
	})
	reg("(*encoding/json.Decoder).UseNumber", func(g *G, a []Value) Value { a[0].(*Opaque).v.(*jdec).useNum = true; return nil })
	decodeInto := func(g *G, n *jnode, tgt Iface, useNum bool) Value {
		if tgt.t == nil {
			return g.simpleErr("json: Unmarshal(nil)")
		}
		pt, ok := tgt.t.Underlying().(*types.Pointer)
		if !ok || isNilPtr(tgt.v) {
			return g.simpleErr("json: Unmarshal(non-pointer " + tgt.t.String() + ")")
		}
		if e := g.jAssign(n, pt.Elem(), tgt.v.(*Value), useNum); e != "" {
			return g.simpleErr(e)
		}
		return Iface{}
	}
	reg("(*encoding/json.Decoder).Decode", func(g *G, a []Value) Value {
		d := a[0].(*Opaque).v.(*jdec)
		if !d.eof {
			b, err := g.readAll(d.r)
			d.eof = true
			d.buf = b
			d.readErr = err
		}
		if d.stored != nil {
			return *d.stored
		}
		p := &jparse{g: g, b: d.buf}
		p.ws()
		if p.pos >= len(d.buf) {
			if d.readErr.t != nil {
				return d.readErr
			}
			return g.globalVal("io", "EOF")
		}
		n, used, err := g.parseJSON(d.buf)
		if err != "" {
			var e Iface
			if strings.HasPrefix(err, "unexpected end") {
				if d.readErr.t != nil {
					e = d.readErr
				} else {
					e = g.globalVal("io", "ErrUnexpectedEOF").(Iface)
				}
			} else {
				e = g.simpleErr(err)
			}
			d.stored = &e
			return e
		}
		d.buf = d.buf[used:]
		return decodeInto(g, n, a[1].(Iface), d.useNum)
	})
	reg("encoding/json.Unmarshal", func(g *G, a []Value) Value {
		b := bytesOfSlice(a[0])
		n, used, err := g.parseJSON(b)
		if err != "" {
			return g.simpleErr(err)
		}
		p := &jparse{g: g, b: b, pos: used}
		p.ws()
		if p.pos < len(b) {
			return g.simpleErr("invalid character after top-level value")
		}
		return decodeInto(g, n, a[1].(Iface), false)
	})
	reg("encoding/json.Valid", func(g *G, a []Value) Value {
		b := bytesOfSlice(a[0])
		_, used, err := g.parseJSON(b)
		if err != "" {
			return eFalse
		}
		p := &jparse{g: g, b: b, pos: used}
		p.ws()
		return mkBool(p.pos == len(b))
	})
}

// ---- compression ----
//
// The deflate and gzip encoders are replaced by a framing that keeps their contract: what was
// written before Close, and nothing else, comes back from the decoder; a stream that was never
// closed does not decode. sym.Gunzip and sym.Inflate are the matching decoders.

type zwriter struct {
	gz     bool
	w      Iface
	level  int64
	wrote  bool
	closed bool
	pend   Value // compressed but not yet handed to w, as a real compressor does
}

const (
	zMagicGz  = "\x1f\x8b\x08"
	zMagicFl  = "\x05"
	zEndFrame = "\xff\xff\xff\xff"
)

func frameLen(n int) string {
	return string([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
}

// zEmit hands s and what is pending to the writer, after the header.
func (g *G) zEmit(z *zwriter, s Value) Iface {
	if z.pend != nil {
		s = strConcat(z.pend, s)
		z.pend = nil
	}
	if !z.wrote {
		z.wrote = true
		if z.gz {
			s = strConcat(zMagicGz, s)
		} else {
			s = strConcat(zMagicFl, s)
		}
	}
	r := g.invoke(z.w, "Write", []Value{sliceOfBytes(strBytes(s))}).(Tuple)
	return r[1].(Iface)
}

func (g *G) zDecode(b []*Expr, magic string) (Value, bool) {
	if len(b) < len(magic)+4 {
		return "", false
	}
	for i := 0; i < len(magic); i++ {
		if !g.branch(g.m.ctx.Eq(b[i], mkConst(uint64(magic[i]), 8))) {
			return "", false
		}
	}
	pos := len(magic)
	var out []*Expr
	for {
		if pos+4 > len(b) {
			return "", false
		}
		n := 0
		for i := 0; i < 4; i++ {
			if !b[pos+i].isConst() {
				return "", false
			}
			n = n<<8 | int(b[pos+i].c)
		}
		pos += 4
		if n == 0xffffffff {
			return mkStr(out), pos == len(b)
		}
		if n > len(b)-pos {
			return "", false
		}
		out = append(out, b[pos:pos+n]...)
		pos += n
	}
}

func init() {
	for _, kind := range []string{"compress/gzip", "compress/flate"} {
		gz := kind == "compress/gzip"
		mk := func(g *G, w Value, level int64) Value {
			g.m.opqSeq++
			return &Opaque{kind: kind, v: &zwriter{gz: gz, w: w.(Iface), level: level}, id: g.m.opqSeq}
		}
		newLevel := func(g *G, a []Value) Value {
			lv := a[1].(*Expr)
			c := g.m.ctx
			bad := c.Or(c.SLt(lv, i64(-2)), c.SLt(i64(9), lv))
			if g.branch(bad) {
				return Tuple{(*Value)(nil), g.simpleErr("invalid compression level")}
			}
			l := int64(-1)
			if lv.isConst() {
				l = int64(lv.c)
			}
			return Tuple{mk(g, a[0], l), Iface{}}
		}
		if gz {
			reg(kind+".NewWriterLevel", newLevel)
			reg(kind+".NewWriter", func(g *G, a []Value) Value { return mk(g, a[0], -1) })
		} else {
			reg(kind+".NewWriter", newLevel)
		}
		get := func(g *G, v Value) *zwriter {
			o, ok := v.(*Opaque)
			if !ok {
				nonNil(g, v)
				panic(unsupported("compressor value"))
			}
			return o.v.(*zwriter)
		}
		reg("(*"+kind+".Writer).Write", func(g *G, a []Value) Value {
			z := get(g, a[0])
			b := bytesOfSlice(a[1])
			if z.closed {
				return Tuple{i64(0), g.simpleErr("write after close")}
			}
			if gz && !z.wrote {
				if e := g.zEmit(z, ""); e.t != nil {
					return Tuple{i64(0), e}
				}
			}
			if len(b) > 0 {
				var old Value = ""
				if z.pend != nil {
					old = z.pend
				}
				z.pend = strConcat(old, strConcat(frameLen(len(b)), mkStr(b)))
			}
			return Tuple{i64(int64(len(b))), Iface{}}
		})
		reg("(*"+kind+".Writer).Flush", func(g *G, a []Value) Value {
			z := get(g, a[0])
			if z.closed {
				return Iface{}
			}
			return g.zEmit(z, "")
		})
		reg("(*"+kind+".Writer).Close", func(g *G, a []Value) Value {
			z := get(g, a[0])
			if z.closed {
				return Iface{}
			}
			z.closed = true
			return g.zEmit(z, zEndFrame)
		})
		reg("(*"+kind+".Writer).Reset", func(g *G, a []Value) Value {
			z := get(g, a[0])
			z.w = a[1].(Iface)
			z.wrote, z.closed, z.pend = false, false, nil
			return nil
		})
	}
	dec := func(name, magic string) {
		reg(symPkg+"."+name, func(g *G, a []Value) Value {
			s, ok := g.zDecode(strBytes(a[0]), magic)
			return Tuple{s, mkBool(ok)}
		})
	}
	dec("Gunzip", zMagicGz)
	dec("Inflate", zMagicFl)
}

// ---- http.Client ----

func init() {
	reg("(*net/http.Client).Do", func(g *G, a []Value) Value {
		c := nonNil(g, a[0])
		ct := g.m.P.typeOf("net/http", "Client")
		rt := (*c).(Struct)[fieldIx(ct, "Transport")].(Iface)
		if rt.t == nil {
			rt = g.globalVal("net/http", "DefaultTransport").(Iface)
		}
		fail := func(e Iface) Value {
			return Tuple{(*Value)(nil), g.newStructPtr("net/url", "Error", "Post", "url", e)}
		}
		if n, ok := rt.v.(*Value); ok && strings.Contains(rt.t.String(), "net/http.Transport") && n != nil {
			panic(unsupported("real network transport"))
		}
		res := g.invoke(rt, "RoundTrip", []Value{a[1]}).(Tuple)
		if e := res[1].(Iface); e.t != nil {
			return fail(e)
		}
		rp := res[0].(*Value)
		if rp == nil {
			return fail(g.simpleErr("http: RoundTripper returned a nil *Response with a nil error"))
		}
		rs := (*rp).(Struct)
		st := rs[fieldIx(g.m.P.typeOf("net/http", "Response"), "StatusCode")].(*Expr)
		ctx := g.m.ctx
		redir := eFalse
		for _, s := range []uint64{301, 302, 303, 307, 308} {
			redir = ctx.Or(redir, ctx.Eq(st, mkConst(s, 64)))
		}
		if g.branch(redir) {
			panic(unsupported("HTTP redirect answer"))
		}
		return Tuple{rp, Iface{}}
	})
	_ = time.Now
	_ = ssa.NewConst
}

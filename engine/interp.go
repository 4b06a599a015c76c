package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   Value
	args []Value
	in   *ssa.Defer
	next *deferred
}

type Frame struct {
	g         *G
	info      *finfo
	caller    *Frame
	env       []Value
	blk       int
	prev      int
	result    Value
	defers    *deferred
	panicking bool
	recovered bool
	panic     interface{}
	depth     int
}

func (fr *Frame) get(o *opnd) Value {
	switch o.k {
	case 0:
		return fr.env[o.i]
	case 1:
		return o.v
	case 2:
		return fr.g.m.global(fr.g, o.g)
	}
	return nil
}

func (m *Machine) global(g *G, gl *ssa.Global) *Value {
	if c, ok := m.globals[gl]; ok {
		if m.initState[gl.Pkg] == 0 {
			m.initPkg(g, gl.Pkg)
		}
		return c
	}
	// allocate all globals of the package, then initialise it
	pk := gl.Pkg
	for _, mem := range pk.Members {
		if x, ok := mem.(*ssa.Global); ok {
			if _, ok := m.globals[x]; !ok {
				c := new(Value)
				*c = zero(x.Type().(*types.Pointer).Elem())
				m.globals[x] = c
			}
		}
	}
	if _, ok := m.globals[gl]; !ok {
		c := new(Value)
		*c = zero(gl.Type().(*types.Pointer).Elem())
		m.globals[gl] = c
	}
	m.initPkg(g, pk)
	return m.globals[gl]
}

// skipInit lists packages whose initialisers are never run (they only talk to the OS or runtime).
var skipInit = map[string]bool{"runtime": true, "syscall": false, "internal/cpu": true, "crypto/internal/fips140/check": true}

// initOwn runs the initialisers of a package and of those of the harness and the repository that it imports; the
// others are initialised when one of their variables is first used.
func (m *Machine) initOwn(g *G, pk *ssa.Package) {
	if m.initState[pk] != 0 {
		return
	}
	for _, im := range pk.Pkg.Imports() {
		if d := m.P.prog.Package(im); d != nil && (strings.HasPrefix(im.Path(), "verifharness") || strings.HasPrefix(im.Path(), "github.com/ixtendio/gofre")) {
			m.initOwn(g, d)
		}
	}
	for _, mem := range pk.Members {
		if x, ok := mem.(*ssa.Global); ok {
			m.global(g, x)
			break
		}
	}
	m.initPkg(g, pk)
}

func (m *Machine) initPkg(g *G, pk *ssa.Package) {
	if m.initState[pk] != 0 {
		return
	}
	m.initState[pk] = 1
	defer func() { m.initState[pk] = 2 }()
	if skipInit[pk.Pkg.Path()] {
		return
	}
	fn := pk.Func("init")
	if fn == nil {
		return
	}
	m.P.buildPkg(pk)
	savedFr := g.fr
	m.initDepth++
	steps := m.path.steps
	func() {
		defer func() {
			m.initDepth--
			g.fr = savedFr
			m.path.steps = steps
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok && pe.kind == endKilled {
					panic(r)
				}
				m.ex.mu.Lock()
				m.ex.inits[pk.Pkg.Path()] = fmt.Sprint(r)
				m.ex.mu.Unlock()
			}
		}()
		g.fr = nil // so that init is not taken for the initialisation of a dependency
		m.call(g, fn, nil)
	}()
}

func (m *Machine) call(g *G, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			g.rtPanic("invalid memory address or nil pointer dereference")
		}
		return m.callSSA(g, f, args, nil)
	case *Closure:
		if f == nil {
			g.rtPanic("invalid memory address or nil pointer dereference")
		}
		return m.callSSA(g, f.fn, args, f.env)
	case *Native:
		return f.f(g, args)
	case *ssa.Builtin:
		return g.builtin(f.Name(), args, nil)
	case nil:
		g.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn)))
}

const maxDepth = 4000

func (m *Machine) callSSA(g *G, fn *ssa.Function, args []Value, env []Value) Value {
	fi := m.P.info(fn)
	if fi.intr != nil {
		r, handled := fi.intr(g, fn, args)
		if handled {
			return r
		}
		// fall through to the body: compile the un-intrinsified twin
		fi = m.P.infoBody(fn)
	}
	if len(fi.blocks) == 0 {
		if m.initDepth > 0 && fn.Name() == "init" {
			return nil
		}
		panic(unsupported("no body: " + fi.name))
	}
	if m.initDepth > 0 && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Pkg != nil && fn.Synthetic != "" && g.fr != nil && g.fr.info.fn.Pkg != fn.Pkg {
		return nil // dependencies are initialised lazily
	}
	fr := &Frame{g: g, info: fi, caller: g.fr, env: make([]Value, fi.nslots)}
	if g.fr != nil {
		fr.depth = g.fr.depth + 1
		if fr.depth > maxDepth {
			panic(pathEnd{endSteps, "call depth exceeded in " + m.srcLoc()})
		}
	}
	for i, s := range fi.params {
		fr.env[s] = args[i]
	}
	for i, s := range fi.free {
		fr.env[s] = env[i]
	}
	atomic.AddInt64(&fi.calls, 1)
	g.fr = fr
	if !fi.hasDefer {
		g.run(fr)
		g.fr = fr.caller
		return fr.result
	}
	g.runWithDefers(fr)
	g.fr = fr.caller
	return fr.result
}

type bodyKey struct{ fn *ssa.Function }

// infoBody is the real body of a function that also has an intrinsic.
func (P *Program) infoBody(fn *ssa.Function) *finfo {
	if x, ok := P.infos.Load(bodyKey{fn}); ok {
		return x.(*finfo)
	}
	x, _ := P.infos.LoadOrStore(bodyKey{fn}, P.compile(fn, false))
	return x.(*finfo)
}

func (g *G) runWithDefers(fr *Frame) {
	for {
		again := g.runProtected(fr)
		if !again {
			return
		}
	}
}

// runProtected runs the frame; a target panic runs the deferred calls. It returns true
// when the function recovered and must continue at its recover block.
func (g *G) runProtected(fr *Frame) (again bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		g.fr = fr
		fr.panicking = true
		fr.panic = tp
		g.runDefers(fr)
		if fr.panicking {
			panic(fr.panic)
		}
		// recovered
		if fr.info.fn.Recover != nil {
			fr.prev = fr.blk
			fr.blk = fr.info.fn.Recover.Index
			again = true
			return
		}
		fr.result = zeroResults(fr.info.fn.Signature)
	}()
	g.run(fr)
	return false
}

func zeroResults(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return zero(sig.Results().At(0).Type())
	}
	return zero(sig.Results())
}

func (g *G) runDefers(fr *Frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		g.runDefer(fr, d)
	}
}

func (g *G) runDefer(fr *Frame, d *deferred) {
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			g.fr = fr
			fr.panicking = true
			fr.panic = tp
		}
	}()
	g.fr = fr
	g.callInstr(d.fn, d.args, d.in.Common(), nil)
	g.fr = fr
}

func (g *G) doRecover() Value {
	// g.fr is the frame that called recover(); its caller must be panicking
	fr := g.fr
	c := fr.caller
	if c != nil && c.panicking {
		c.panicking = false
		tp := c.panic.(targetPanic)
		c.panic = nil
		return tp.v
	}
	return Iface{}
}

// rtPanic raises a Go runtime error.
func (g *G) rtPanic(msg string) {
	if g.m.initDepth > 0 && g.m.P.errT == nil {
		panic(unsupported("runtime error in init: " + msg))
	}
	panic(targetPanic{Iface{g.m.P.errT, msg}, g.m.srcLoc()})
}

func (g *G) run(fr *Frame) {
	m := g.m
	p := m.path
	fi := fr.info
	for {
		cb := &fi.blocks[fr.blk]
		p.steps += int64(len(cb.code) + 1)
		if p.steps&0x3fff < 64 {
			m.periodic(fr)
		}
		if len(cb.phis) > 0 {
			g.evalPhis(fr, cb, cb.predIx[fr.prev])
		}
		next := -1
		for i := range cb.code {
			c := &cb.code[i]
			switch in := c.in.(type) {
			case *ssa.If:
				cond := fr.get(&c.a)
				e, ok := cond.(*Expr)
				if !ok {
					badValue(cond, "if")
				}
				e = g.known(e)
				if e.op != opConst && c.reg != nil && m.initDepth == 0 {
					if g.tryRegion(fr, fi, c.reg, e, cb) {
						next = -2
						break
					}
				}
				if g.branch(e) {
					next = cb.succ[0]
				} else {
					next = cb.succ[1]
				}
			case *ssa.Jump:
				next = cb.succ[0]
			case *ssa.Return:
				switch len(c.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&c.ops[0])
				default:
					t := make(Tuple, len(c.ops))
					for j := range c.ops {
						t[j] = fr.get(&c.ops[j])
					}
					fr.result = t
				}
				return
			default:
				_ = in
				g.exec(fr, c)
			}
		}
		switch next {
		case -1:
			panic(unsupported("block fell through in " + fi.name))
		case -2:
			// tryRegion set fr.blk/prev and evaluated the phis of the exit
			nb := &fi.blocks[fr.blk]
			_ = nb
			next2, done := g.runBlockBody(fr, fi)
			if done {
				return
			}
			fr.prev = fr.blk
			fr.blk = next2
			continue
		}
		fr.prev = fr.blk
		fr.blk = next
	}
}

// runBlockBody executes the current block without evaluating its phis (already done).
func (g *G) runBlockBody(fr *Frame, fi *finfo) (int, bool) {
	m := g.m
	for {
		cb := &fi.blocks[fr.blk]
		m.path.steps += int64(len(cb.code) + 1)
		next := -1
		for i := range cb.code {
			c := &cb.code[i]
			switch c.in.(type) {
			case *ssa.If:
				cond := fr.get(&c.a)
				e, ok := cond.(*Expr)
				if !ok {
					badValue(cond, "if")
				}
				if e.op != opConst && c.reg != nil && m.initDepth == 0 && g.tryRegion(fr, fi, c.reg, e, cb) {
					next = -2
					break
				}
				if g.branch(e) {
					next = cb.succ[0]
				} else {
					next = cb.succ[1]
				}
			case *ssa.Jump:
				next = cb.succ[0]
			case *ssa.Return:
				switch len(c.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&c.ops[0])
				default:
					t := make(Tuple, len(c.ops))
					for j := range c.ops {
						t[j] = fr.get(&c.ops[j])
					}
					fr.result = t
				}
				return 0, true
			default:
				g.exec(fr, c)
			}
		}
		if next == -2 {
			continue
		}
		return next, false
	}
}

func badValue(v Value, what string) {
	if p, ok := v.(Poison); ok {
		panic(unsupported("poisoned value in " + what + ": " + p.why))
	}
	panic(unsupported(fmt.Sprintf("bad value %T in %s", v, what)))
}

func (m *Machine) periodic(fr *Frame) {
	p := m.path
	lim := m.P.stepLimit
	if p.steps > lim && m.initDepth == 0 {
		panic(pathEnd{endSteps, "in " + m.srcLoc()})
	}
	if m.ex.stopped && !m.ex.deadline.IsZero() && time.Now().After(m.ex.deadline.Add(5*time.Second)) {
		panic(pathEnd{endDeadline, ""})
	}
}

func (g *G) evalPhis(fr *Frame, cb *cblock, edge int) {
	if len(cb.phis) == 1 {
		fr.env[cb.phis[0].dst] = fr.get(&cb.phis[0].edges[edge])
		return
	}
	var tmp [8]Value
	t := tmp[:0]
	for i := range cb.phis {
		t = append(t, fr.get(&cb.phis[i].edges[edge]))
	}
	for i := range cb.phis {
		fr.env[cb.phis[i].dst] = t[i]
	}
}

// bail is raised when a region cannot be evaluated without side effects.
type bail struct{}

// tryRegion evaluates a pure region under guards and forks at most once, on the exit taken.
func (g *G) tryRegion(fr *Frame, fi *finfo, reg *region, cond *Expr, head *cblock) (ok bool) {
	m := g.m
	if m.path.raceOn || cond.op == opConst {
		return false
	}
	ctx := m.ctx
	type edge struct {
		from  int
		guard *Expr
	}
	in := make(map[int][]edge, len(reg.order)+2)
	add := func(from, to int, gd *Expr) {
		if gd.isFalse() {
			return
		}
		in[to] = append(in[to], edge{from, gd})
	}
	add(reg.head, head.succ[0], cond)
	add(reg.head, head.succ[1], ctx.Not(cond))
	merge := func(to int) (vals []Value, guard *Expr) {
		es := in[to]
		cb := &fi.blocks[to]
		guard = eFalse
		for _, e := range es {
			guard = ctx.Or(guard, e.guard)
		}
		for i := range cb.phis {
			ph := &cb.phis[i]
			var v Value
			for k := len(es) - 1; k >= 0; k-- {
				x := fr.get(&ph.edges[cb.predIx[es[k].from]])
				if v == nil {
					v = x
				} else {
					v = g.iteVal(es[k].guard, x, v)
				}
			}
			vals = append(vals, v)
		}
		return
	}
	bailed := func() (b bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(bail); is {
					b = true
					return
				}
				panic(r)
			}
		}()
		for _, bi := range reg.order {
			if len(in[bi]) == 0 {
				continue
			}
			cb := &fi.blocks[bi]
			vals, guard := merge(bi)
			for i := range vals {
				fr.env[cb.phis[i].dst] = vals[i]
			}
			for i := range cb.code {
				c := &cb.code[i]
				switch c.in.(type) {
				case *ssa.If:
					e, ok := fr.get(&c.a).(*Expr)
					if !ok {
						panic(bail{})
					}
					e = g.known(e)
					add(bi, cb.succ[0], ctx.And(guard, e))
					add(bi, cb.succ[1], ctx.And(guard, ctx.Not(e)))
				case *ssa.Jump:
					add(bi, cb.succ[0], guard)
				default:
					g.execPure(fr, c)
				}
			}
		}
		return false
	}()
	if bailed {
		return false
	}
	// compute phi values for the exits before forking (may bail)
	type exitState struct {
		blk   int
		vals  []Value
		guard *Expr
	}
	var exits []exitState
	bailed = func() (b bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(bail); is {
					b = true
					return
				}
				panic(r)
			}
		}()
		for _, x := range reg.exits {
			if len(in[x]) == 0 {
				continue
			}
			vals, gd := merge(x)
			exits = append(exits, exitState{x, vals, gd})
		}
		return false
	}()
	if bailed {
		return false
	}
	pick := 0
	if len(exits) == 2 {
		if !g.branch(exits[0].guard) {
			pick = 1
		}
	}
	x := exits[pick]
	cb := &fi.blocks[x.blk]
	for i := range x.vals {
		fr.env[cb.phis[i].dst] = x.vals[i]
	}
	fr.prev = in[x.blk][0].from
	fr.blk = x.blk
	return true
}

// iteVal merges two values under a guard or bails.
func (g *G) iteVal(c *Expr, a, b Value) Value {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	switch x := a.(type) {
	case *Expr:
		if y, ok := b.(*Expr); ok && x.w == y.w {
			return g.m.ctx.Ite(c, x, y)
		}
	case string:
		if y, ok := b.(string); ok && x == y {
			return x
		}
		if isStr(b) && strLen(b) == len(x) {
			return g.iteStr(c, a, b)
		}
	case *SymStr:
		if isStr(b) && strLen(b) == len(x.b) {
			return g.iteStr(c, a, b)
		}
	case *Value:
		if y, ok := b.(*Value); ok && x == y {
			return x
		}
	case Iface:
		if y, ok := b.(Iface); ok && x.t == nil && y.t == nil {
			return x
		}
	case Slice:
		if y, ok := b.(Slice); ok && len(x) == len(y) && cap(x) == cap(y) && (len(x) == 0 && (x == nil) == (y == nil) || len(x) > 0 && &x[0] == &y[0]) {
			return x
		}
	}
	panic(bail{})
}

func isStr(v Value) bool {
	switch v.(type) {
	case string, *SymStr:
		return true
	}
	return false
}

func (g *G) iteStr(c *Expr, a, b Value) Value {
	x, y := strBytes(a), strBytes(b)
	r := make([]*Expr, len(x))
	for i := range x {
		r[i] = g.m.ctx.Ite(c, x[i], y[i])
	}
	return mkStr(r)
}

// execPure executes an instruction that must not fork, panic or write; otherwise it bails.
func (g *G) execPure(fr *Frame, c *cin) {
	switch in := c.in.(type) {
	case *ssa.BinOp:
		x, y := fr.get(&c.a), fr.get(&c.b)
		ex, ok1 := x.(*Expr)
		ey, ok2 := y.(*Expr)
		if ok1 && ok2 {
			switch in.Op {
			case token.SHL, token.SHR:
				if !ey.isConst() {
					panic(bail{})
				}
			case token.QUO, token.REM:
				if !ey.isConst() || ey.c == 0 {
					panic(bail{})
				}
			}
			_ = ex
			fr.env[c.dst] = g.binop(in, x, y)
			return
		}
		if (in.Op == token.EQL || in.Op == token.NEQ) && isStr(x) && isStr(y) {
			fr.env[c.dst] = g.binop(in, x, y)
			return
		}
		if in.Op == token.EQL || in.Op == token.NEQ {
			switch x.(type) {
			case *Value, Slice, *Map:
				fr.env[c.dst] = g.binop(in, x, y)
				return
			case Iface:
				if i, ok := y.(Iface); ok && i.t == nil {
					fr.env[c.dst] = g.binop(in, x, y)
					return
				}
			}
		}
		panic(bail{})
	case *ssa.UnOp:
		x := fr.get(&c.a)
		switch in.Op {
		case token.MUL:
			p, ok := x.(*Value)
			if ok && p != nil {
				if oc := g.m.path.openCells; oc != nil && oc[p] != nil {
					panic(bail{})
				}
				switch (*p).(type) {
				case Struct, Array, Poison:
					panic(bail{})
				}
				fr.env[c.dst] = *p
				return
			}
			if ep, ok := x.(ElemPtr); ok {
				if v, ok := g.symLoad(ep); ok {
					fr.env[c.dst] = v
					return
				}
			}
			panic(bail{})
		case token.NOT, token.SUB, token.XOR:
			if _, ok := x.(*Expr); ok {
				fr.env[c.dst] = g.unop(in, x)
				return
			}
		}
		panic(bail{})
	case *ssa.Convert:
		x := fr.get(&c.a)
		if e, ok := x.(*Expr); ok {
			if w, _, ok := intWidth(in.Type()); ok && w > 0 {
				_, sg, _ := intWidth(in.X.Type())
				fr.env[c.dst] = g.convInt(e, sg, w)
				return
			}
		}
		panic(bail{})
	case *ssa.ChangeType, *ssa.ChangeInterface:
		fr.env[c.dst] = fr.get(&c.a)
	case *ssa.Extract:
		t, ok := fr.get(&c.a).(Tuple)
		if !ok {
			panic(bail{})
		}
		fr.env[c.dst] = t[in.Index]
	case *ssa.Field:
		s, ok := fr.get(&c.a).(Struct)
		if !ok {
			panic(bail{})
		}
		fr.env[c.dst] = s[in.Field]
	case *ssa.FieldAddr:
		p, ok := fr.get(&c.a).(*Value)
		if !ok || p == nil {
			panic(bail{})
		}
		s, ok := (*p).(Struct)
		if !ok {
			panic(bail{})
		}
		fr.env[c.dst] = &s[in.Field]
	case *ssa.IndexAddr:
		ix, ok := fr.get(&c.b).(*Expr)
		if !ok {
			panic(bail{})
		}
		var s []Value
		switch x := fr.get(&c.a).(type) {
		case Slice:
			s = x
		case *Value:
			if x == nil {
				panic(bail{})
			}
			a, ok := (*x).(Array)
			if !ok {
				panic(bail{})
			}
			s = a
		default:
			panic(bail{})
		}
		if !ix.isConst() {
			mx := umaxOf(ix)
			if mx < uint64(len(s)) {
				fr.env[c.dst] = ElemPtr{s, ix}
				return
			}
			panic(bail{})
		}
		if sext64(ix.c, ix.w) < 0 || ix.c >= uint64(len(s)) {
			panic(bail{})
		}
		fr.env[c.dst] = &s[ix.c]
	case *ssa.Index, *ssa.Lookup:
		ix, ok := fr.get(&c.b).(*Expr)
		x := fr.get(&c.a)
		if !ok || !ix.isConst() || !isStr(x) || ix.c >= uint64(strLen(x)) {
			panic(bail{})
		}
		fr.env[c.dst] = strByte(x, int(ix.c))
	case *ssa.Call:
		x := fr.get(&c.ops[0])
		switch s := x.(type) {
		case string, *SymStr:
			fr.env[c.dst] = mkConst(uint64(strLen(s)), 64)
		case Slice:
			fr.env[c.dst] = mkConst(uint64(len(s)), 64)
		default:
			panic(bail{})
		}
	default:
		panic(bail{})
	}
}

func (g *G) exec(fr *Frame, c *cin) {
	m := g.m
	if m.initDepth > 0 {
		g.execInit(fr, c)
		return
	}
	g.exec1(fr, c)
}

// execInit runs an instruction during package initialisation; unsupported operations poison their result.
func (g *G) execInit(fr *Frame, c *cin) {
	defer func() {
		if r := recover(); r != nil {
			var why string
			switch x := r.(type) {
			case pathEnd:
				if x.kind != endUnsupported {
					panic(r)
				}
				why = x.msg
			case targetPanic:
				panic(r)
			default:
				why = fmt.Sprint(r)
			}
			// only the outermost frame of the package initialiser absorbs the failure
			if fr.caller != nil && fr.caller.g == g && g.m.initNested(fr) {
				panic(r)
			}
			g.fr = fr
			if c.dst >= 0 {
				fr.env[c.dst] = Poison{why}
			}
		}
	}()
	g.exec1(fr, c)
}

// initNested reports whether fr is below the init function currently running.
func (m *Machine) initNested(fr *Frame) bool {
	n := fr.info.fn.Name()
	return n != "init"
}

func (g *G) load(p Value) Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			g.rtPanic("invalid memory address or nil pointer dereference")
		}
		if g.m.path.raceOn {
			g.raceRead(x)
		}
		return copyVal(*x)
	case ElemPtr:
		if !g.m.path.raceOn {
			if v, ok := g.symLoad(x); ok {
				return v
			}
		}
		i := g.concretize(x.idx)
		if g.m.path.raceOn {
			g.raceRead(&x.s[i])
		}
		return copyVal(x.s[i])
	case CastPtr:
		return g.castLoad(x)
	case hdrField:
		return g.hdrLoad(x)
	case Poison:
		badValue(x, "load")
	}
	panic(unsupported(fmt.Sprintf("load through %T", p)))
}

// symLoad reads element idx of scalars as an ite chain.
func (g *G) symLoad(p ElemPtr) (Value, bool) {
	n := len(p.s)
	if n == 0 || n > 70000 {
		return nil, false
	}
	ctx := g.m.ctx
	first, ok := p.s[0].(*Expr)
	if !ok {
		return nil, false
	}
	mx := umaxOf(p.idx)
	if mx < uint64(n-1) {
		n = int(mx + 1)
	}
	for i := 0; i < n; i++ {
		if e, ok := p.s[i].(*Expr); !ok || e.w != first.w {
			return nil, false
		}
	}
	// runs of equal elements
	var res *Expr
	i := n
	for i > 0 {
		j := i - 1
		e := p.s[j].(*Expr)
		for j > 0 && same(p.s[j-1].(*Expr), e) {
			j--
		}
		if res == nil {
			res = e
		} else {
			// idx < i -> this run
			res = ctx.Ite(ctx.ULt(p.idx, mkConst(uint64(i), p.idx.w)), e, res)
		}
		i = j
	}
	return res, true
}

func (g *G) store(p Value, v Value) {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			g.rtPanic("invalid memory address or nil pointer dereference")
		}
		g.storeCell(x, v)
		return
	case ElemPtr:
		if nv, ok := v.(*Expr); ok && !g.m.path.raceOn {
			okAll := true
			for _, o := range x.s {
				if e, ok := o.(*Expr); !ok || e.w != nv.w {
					okAll = false
				}
			}
			if okAll && len(x.s) <= 64 {
				for i := range x.s {
					old := x.s[i].(*Expr)
					g.m.jset(&x.s[i], g.m.ctx.Ite(g.m.ctx.Eq(x.idx, mkConst(uint64(i), x.idx.w)), nv, old))
				}
				return
			}
		}
		i := g.concretize(x.idx)
		g.storeCell(&x.s[i], v)
		return
	case CastPtr:
		g.castStore(x, v)
		return
	case Poison:
		badValue(x, "store")
	}
	panic(unsupported(fmt.Sprintf("store through %T", p)))
}

func (g *G) storeCell(x *Value, v Value) {
	switch nv := v.(type) {
	case Struct:
		if old, ok := (*x).(Struct); ok && len(old) == len(nv) {
			if len(nv) == 0 {
				return
			}
			for i := range nv {
				g.storeCell(&old[i], nv[i])
			}
			return
		}
		v = copyVal(v)
	case Array:
		if old, ok := (*x).(Array); ok && len(old) == len(nv) {
			for i := range nv {
				g.storeCell(&old[i], nv[i])
			}
			return
		}
		v = copyVal(v)
	}
	if g.m.path.raceOn {
		g.raceWrite(x)
	}
	g.m.jset(x, v)
}

func (g *G) exec1(fr *Frame, c *cin) {
	m := g.m
	switch in := c.in.(type) {
	case *ssa.Alloc:
		p := new(Value)
		*p = zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.env[c.dst] = p
	case *ssa.BinOp:
		fr.env[c.dst] = g.binop(in, fr.get(&c.a), fr.get(&c.b))
	case *ssa.UnOp:
		if m.path.openCells != nil && in.Op == token.MUL {
			if p, ok := fr.get(&c.a).(*Value); ok && p != nil {
				g.openLoad(fr, p)
			}
		}
		fr.env[c.dst] = g.unop(in, fr.get(&c.a))
	case *ssa.Call:
		fv := fr.get(&c.a)
		if c.builtin != "" {
			args := make([]Value, len(c.ops))
			for i := range c.ops {
				args[i] = fr.get(&c.ops[i])
			}
			fr.env[c.dst] = g.builtin(c.builtin, args, in)
			return
		}
		args := make([]Value, len(c.ops), len(c.ops)+1)
		for i := range c.ops {
			args[i] = fr.get(&c.ops[i])
		}
		if c.callee != nil {
			if cl, ok := fv.(*Closure); ok {
				fr.env[c.dst] = m.callSSA(g, cl.fn, args, cl.env)
			} else {
				fr.env[c.dst] = m.callSSA(g, c.callee, args, nil)
			}
			g.fr = fr
			return
		}
		fr.env[c.dst] = g.callInstr(fv, args, &in.Call, in)
		g.fr = fr
	case *ssa.ChangeInterface:
		fr.env[c.dst] = fr.get(&c.a)
	case *ssa.ChangeType:
		fr.env[c.dst] = fr.get(&c.a)
	case *ssa.Convert:
		fr.env[c.dst] = g.convert(in.X.Type(), in.Type(), fr.get(&c.a))
	case *ssa.MultiConvert:
		fr.env[c.dst] = g.convert(in.X.Type(), in.Type(), fr.get(&c.a))
	case *ssa.MakeInterface:
		v := fr.get(&c.a)
		if p, ok := v.(Poison); ok {
			panic(unsupported("poison in interface: " + p.why))
		}
		fr.env[c.dst] = Iface{in.X.Type(), copyVal(v)}
	case *ssa.Extract:
		v := fr.get(&c.a)
		t, ok := v.(Tuple)
		if !ok {
			badValue(v, "extract")
		}
		fr.env[c.dst] = t[in.Index]
	case *ssa.Slice:
		fr.env[c.dst] = g.sliceOp(in, fr.get(&c.a), fr.get(&c.ops[0]), fr.get(&c.ops[1]), fr.get(&c.ops[2]))
	case *ssa.Panic:
		v, ok := fr.get(&c.a).(Iface)
		if !ok {
			badValue(fr.get(&c.a), "panic")
		}
		if v.t == nil && !m.path.replayPanicNil {
			v = m.panicNilError(g)
		}
		panic(targetPanic{v, m.srcLoc()})
	case *ssa.Send:
		g.chanSend(fr.get(&c.a), fr.get(&c.b))
	case *ssa.Store:
		g.store(fr.get(&c.a), fr.get(&c.b))
	case *ssa.MakeChan:
		n := int(g.concretize(fr.get(&c.a).(*Expr)))
		fr.env[c.dst] = &Chan{cap: n, et: in.Type().Underlying().(*types.Chan).Elem()}
	case *ssa.MakeSlice:
		n := int(int64(g.concretize(fr.get(&c.a).(*Expr))))
		cp := int(int64(g.concretize(fr.get(&c.b).(*Expr))))
		if n < 0 || n > 1<<24 {
			if n < 0 {
				g.rtPanic("makeslice: len out of range")
			}
			panic(unsupported("huge make"))
		}
		if cp < n {
			g.rtPanic("makeslice: cap out of range")
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := make(Slice, cp)
		fillZero(s, et)
		fr.env[c.dst] = s[:n]
	case *ssa.MakeMap:
		fr.env[c.dst] = g.newMap(in.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function)}
		for i := range c.ops {
			cl.env = append(cl.env, fr.get(&c.ops[i]))
		}
		fr.env[c.dst] = cl
	case *ssa.Range:
		fr.env[c.dst] = g.rangeIter(fr.get(&c.a))
	case *ssa.Next:
		it := fr.get(&c.a)
		switch x := it.(type) {
		case *mapIter:
			fr.env[c.dst] = g.mapNext(x, in)
		case *strIter:
			fr.env[c.dst] = g.strNext(x)
		default:
			badValue(it, "next")
		}
	case *ssa.FieldAddr:
		v := fr.get(&c.a)
		switch p := v.(type) {
		case *Value:
			if p == nil {
				g.rtPanic("invalid memory address or nil pointer dereference")
			}
			s, ok := (*p).(Struct)
			if !ok {
				badValue(*p, "fieldaddr "+in.String()+" in "+fr.info.name)
			}
			fr.env[c.dst] = &s[in.Field]
		case ElemPtr:
			i := g.concretize(p.idx)
			fr.env[c.dst] = &(p.s[i].(Struct))[in.Field]
		case CastPtr:
			fr.env[c.dst] = g.castField(p, in.Field)
		default:
			badValue(v, "fieldaddr "+in.String()+" in "+fr.info.name)
		}
	case *ssa.Field:
		v := fr.get(&c.a)
		s, ok := v.(Struct)
		if !ok {
			badValue(v, "field")
		}
		fr.env[c.dst] = s[in.Field]
	case *ssa.IndexAddr:
		fr.env[c.dst] = g.indexAddr(fr.get(&c.a), fr.get(&c.b))
	case *ssa.Index:
		fr.env[c.dst] = g.index(fr.get(&c.a), fr.get(&c.b))
	case *ssa.Lookup:
		x := fr.get(&c.a)
		switch mp := x.(type) {
		case *Map:
			if len(m.path.opened) > 0 {
				g.openLookup(fr, mp, fr.get(&c.b))
			}
			v, ok := g.mapGet(mp, fr.get(&c.b))
			if !ok {
				v = zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				fr.env[c.dst] = Tuple{v, mkBool(ok)}
			} else {
				fr.env[c.dst] = v
			}
		case string, *SymStr:
			fr.env[c.dst] = g.index(x, fr.get(&c.b))
		default:
			badValue(x, "lookup")
		}
	case *ssa.MapUpdate:
		v := fr.get(&c.a)
		mp, ok := v.(*Map)
		if !ok {
			badValue(v, "mapupdate")
		}
		if mp == nil {
			panic(targetPanic{Iface{m.P.errT, "assignment to entry in nil map"}, m.srcLoc()})
		}
		g.mapSet(mp, fr.get(&c.b), fr.get(&c.c))
	case *ssa.TypeAssert:
		v := fr.get(&c.a)
		i, ok := v.(Iface)
		if !ok {
			badValue(v, "typeassert")
		}
		fr.env[c.dst] = g.typeAssert(in, i)
	case *ssa.Go:
		args := make([]Value, len(c.ops))
		for i := range c.ops {
			args[i] = fr.get(&c.ops[i])
		}
		g.spawn(fr.get(&c.a), args, &in.Call)
	case *ssa.Defer:
		args := make([]Value, len(c.ops))
		for i := range c.ops {
			args[i] = fr.get(&c.ops[i])
		}
		d := &deferred{fn: fr.get(&c.a), args: args, in: in, next: fr.defers}
		fr.defers = d
	case *ssa.RunDefers:
		g.runDefers(fr)
		if fr.panicking {
			panic(fr.panic)
		}
	case *ssa.Select:
		fr.env[c.dst] = g.selectOp(in, fr, c)
	case *ssa.SliceToArrayPointer:
		s := fr.get(&c.a).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			g.rtPanic("cannot convert slice to array pointer: length mismatch")
		}
		p := new(Value)
		*p = Array(s[:n:n])
		fr.env[c.dst] = p
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", c.in)))
	}
}

func fillZero(s []Value, et types.Type) {
	if len(s) == 0 {
		return
	}
	z := zero(et)
	switch z.(type) {
	case Struct, Array:
		s[0] = z
		for i := 1; i < len(s); i++ {
			s[i] = copyVal(z)
		}
	default:
		for i := range s {
			s[i] = z
		}
	}
}

// callInstr performs a call or invoke with already evaluated operands.
func (g *G) callInstr(fv Value, args []Value, cc *ssa.CallCommon, instr ssa.Instruction) Value {
	m := g.m
	if cc.IsInvoke() {
		iv, ok := fv.(Iface)
		if !ok {
			badValue(fv, "invoke")
		}
		if iv.t == nil {
			g.rtPanic("invalid memory address or nil pointer dereference")
		}
		if n, ok := iv.v.(nativeMethods); ok {
			if f := n.method(cc.Method.Name()); f != nil {
				return f(g, args)
			}
		}
		fn := m.findMethod(iv.t, cc.Method)
		if fn == nil {
			panic(unsupported(fmt.Sprintf("no method %s on %s", cc.Method, iv.t)))
		}
		a := make([]Value, 0, len(args)+1)
		a = append(append(a, copyVal(iv.v)), args...)
		return m.callSSA(g, fn, a, nil)
	}
	if b, ok := fv.(*ssa.Builtin); ok {
		var ci ssa.Instruction = instr
		_ = ci
		return g.builtinCC(b.Name(), args, cc)
	}
	return m.call(g, fv, args)
}

type nativeMethods interface {
	method(name string) func(g *G, args []Value) Value
}

func (m *Machine) findMethod(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth.Name(), meth.Pkg()}
	if meth.Exported() {
		k.pkg = nil
	}
	if f, ok := m.methCache[k]; ok {
		return f
	}
	ms := m.P.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(meth.Pkg(), meth.Name())
	if sel == nil {
		return nil
	}
	f := m.P.methodValue(sel)
	m.methCache[k] = f
	return f
}

func (P *Program) methodValue(sel *types.Selection) *ssa.Function {
	// the declaring package must be built before wrappers refer to it
	if f, ok := sel.Obj().(*types.Func); ok && f.Pkg() != nil {
		if pk := P.prog.Package(f.Pkg()); pk != nil {
			P.buildPkg(pk)
		}
	}
	P.buildMu.Lock()
	defer P.buildMu.Unlock()
	return P.prog.MethodValue(sel)
}

func (m *Machine) lookupMethodByName(t types.Type, name string) *ssa.Function {
	ms := m.P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return m.P.methodValue(s)
		}
	}
	return nil
}

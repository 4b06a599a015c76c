package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(g *G, fn *ssa.Function, args []Value) (Value, bool)

var intrinsics = map[string]intrinsic{}

func lookupIntrinsic(name string) intrinsic { return intrinsics[name] }

func reg(name string, f func(g *G, args []Value) Value) {
	intrinsics[name] = func(g *G, fn *ssa.Function, args []Value) (Value, bool) { return f(g, args), true }
}

func regT(name string, f func(g *G, args []Value) (Value, bool)) {
	intrinsics[name] = func(g *G, fn *ssa.Function, args []Value) (Value, bool) { return f(g, args) }
}

// handles are the values of unique.Make for the zones of IP addresses.
var handles sync.Map

func init() {
	intrinsics["unique.Make"] = func(g *G, fn *ssa.Function, a []Value) (Value, bool) {
		d, ok := a[0].(Struct)
		if !ok || len(d) != 2 || !strings.Contains(fn.String(), "netip.addrDetail") {
			return nil, false
		}
		e, ok := d[0].(*Expr)
		if !ok || !e.isConst() {
			panic(unsupported("unique.Make of a symbolic value"))
		}
		p := new(Value)
		*p = Struct{d[0], d[1]}
		h, _ := handles.LoadOrStore(fmt.Sprint(e.c, " ", cstr(d[1])), p)
		return Struct{h}, true
	}
}

func cstr(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported(fmt.Sprintf("concrete string expected, got %T", v)))
	}
	return s
}

func i64(v int64) *Expr { return mkConst(uint64(v), 64) }

func bytesOfSlice(v Value) []*Expr {
	s, ok := v.(Slice)
	if !ok {
		badValue(v, "bytes")
	}
	r := make([]*Expr, len(s))
	for i := range s {
		e, ok := s[i].(*Expr)
		if !ok {
			badValue(s[i], "byte")
		}
		r[i] = e
	}
	return r
}

func sliceOfBytes(b []*Expr) Slice {
	s := make(Slice, len(b))
	for i := range b {
		s[i] = b[i]
	}
	return s
}

func sliceOfString(s string) Slice {
	r := make(Slice, len(s))
	for i := range r {
		r[i] = smallConst[8][s[i]]
	}
	return r
}

func allConst(b []*Expr) (string, bool) {
	r := make([]byte, len(b))
	for i, e := range b {
		if !e.isConst() {
			return "", false
		}
		r[i] = byte(e.c)
	}
	return string(r), true
}

// matchAt is the formula "sub occurs in s at position i".
func (g *G) matchAt(s, sub []*Expr, i int) *Expr {
	r := eTrue
	for k := range sub {
		r = g.m.ctx.And(r, g.m.ctx.Eq(s[i+k], sub[k]))
		if r.isFalse() {
			break
		}
	}
	return r
}

func (g *G) indexExpr(s, sub []*Expr) *Expr {
	res := i64(-1)
	for i := len(s) - len(sub); i >= 0; i-- {
		res = g.m.ctx.Ite(g.matchAt(s, sub, i), i64(int64(i)), res)
	}
	return res
}

// indexFork finds the first occurrence, forking on every position.
func (g *G) indexFork(s, sub []*Expr) Value {
	for i := 0; i+len(sub) <= len(s); i++ {
		if g.branch(g.matchAt(s, sub, i)) {
			return i64(int64(i))
		}
	}
	return i64(-1)
}

func (g *G) lastIndexFork(s, sub []*Expr) Value {
	for i := len(s) - len(sub); i >= 0; i-- {
		if g.branch(g.matchAt(s, sub, i)) {
			return i64(int64(i))
		}
	}
	return i64(-1)
}

func (g *G) containsExpr(s, sub []*Expr) *Expr {
	r := eFalse
	for i := 0; i+len(sub) <= len(s); i++ {
		r = g.m.ctx.Or(r, g.matchAt(s, sub, i))
	}
	return r
}

func (g *G) lastIndexExpr(s, sub []*Expr) *Expr {
	res := i64(-1)
	for i := 0; i+len(sub) <= len(s); i++ {
		res = g.m.ctx.Ite(g.matchAt(s, sub, i), i64(int64(i)), res)
	}
	return res
}

func (g *G) countByte(s []*Expr, b *Expr) *Expr {
	n := i64(0)
	for _, x := range s {
		n = g.m.ctx.Bin(opAdd, n, g.m.ctx.Ite(g.m.ctx.Eq(x, b), i64(1), i64(0)))
	}
	return n
}

func (g *G) allASCII(b []*Expr) *Expr {
	r := eTrue
	for _, x := range b {
		r = g.m.ctx.And(r, g.m.ctx.ULt(x, mkConst(0x80, 8)))
	}
	return r
}

func (g *G) inRange(b *Expr, lo, hi byte) *Expr {
	return g.m.ctx.And(g.m.ctx.ULe(mkConst(uint64(lo), 8), b), g.m.ctx.ULe(b, mkConst(uint64(hi), 8)))
}

func (g *G) lower(b *Expr) *Expr {
	return g.m.ctx.Ite(g.inRange(b, 'A', 'Z'), g.m.ctx.Bin(opAdd, b, mkConst(32, 8)), b)
}

func (g *G) upper(b *Expr) *Expr {
	return g.m.ctx.Ite(g.inRange(b, 'a', 'z'), g.m.ctx.Bin(opSub, b, mkConst(32, 8)), b)
}

func (g *G) cmpStr(x, y Value) *Expr {
	return g.m.ctx.Ite(g.strEq(x, y), i64(0), g.m.ctx.Ite(g.strLess(x, y), i64(-1), i64(1)))
}

func toSym(b []*Expr) Value { return mkStr(b) }

func init() {
	// ---- byte-level primitives ----
	idxByte := func(g *G, s []*Expr, c *Expr) Value { return g.indexFork(s, []*Expr{c}) }
	reg("internal/bytealg.IndexByteString", func(g *G, a []Value) Value { return idxByte(g, strBytes(a[0]), a[1].(*Expr)) })
	reg("internal/bytealg.IndexByte", func(g *G, a []Value) Value { return idxByte(g, bytesOfSlice(a[0]), a[1].(*Expr)) })
	reg("internal/bytealg.LastIndexByteString", func(g *G, a []Value) Value {
		return g.lastIndexFork(strBytes(a[0]), []*Expr{a[1].(*Expr)})
	})
	reg("internal/bytealg.LastIndexByte", func(g *G, a []Value) Value {
		return g.lastIndexFork(bytesOfSlice(a[0]), []*Expr{a[1].(*Expr)})
	})
	reg("internal/bytealg.CountString", func(g *G, a []Value) Value { return g.countByte(strBytes(a[0]), a[1].(*Expr)) })
	reg("internal/bytealg.Count", func(g *G, a []Value) Value { return g.countByte(bytesOfSlice(a[0]), a[1].(*Expr)) })
	reg("internal/bytealg.Equal", func(g *G, a []Value) Value { return g.strEq(toSym(bytesOfSlice(a[0])), toSym(bytesOfSlice(a[1]))) })
	reg("bytes.Equal", func(g *G, a []Value) Value { return g.strEq(toSym(bytesOfSlice(a[0])), toSym(bytesOfSlice(a[1]))) })
	reg("internal/bytealg.Compare", func(g *G, a []Value) Value { return g.cmpStr(toSym(bytesOfSlice(a[0])), toSym(bytesOfSlice(a[1]))) })
	reg("internal/bytealg.CompareString", func(g *G, a []Value) Value { return g.cmpStr(a[0], a[1]) })
	reg("strings.Compare", func(g *G, a []Value) Value { return g.cmpStr(a[0], a[1]) })
	reg("internal/bytealg.MakeNoZero", func(g *G, a []Value) Value {
		n := g.concInt(a[0], 0)
		s := make(Slice, n)
		for i := range s {
			s[i] = smallConst[8][0]
		}
		return s
	})
	for _, pk := range []string{"strings", "internal/stringslite"} {
		reg(pk+".Index", func(g *G, a []Value) Value { return g.indexFork(strBytes(a[0]), strBytes(a[1])) })
		reg(pk+".IndexByte", func(g *G, a []Value) Value { return idxByte(g, strBytes(a[0]), a[1].(*Expr)) })
	}
	reg("strings.LastIndex", func(g *G, a []Value) Value { return g.lastIndexFork(strBytes(a[0]), strBytes(a[1])) })
	reg("strings.LastIndexByte", func(g *G, a []Value) Value { return g.lastIndexFork(strBytes(a[0]), []*Expr{a[1].(*Expr)}) })
	reg("bytes.Index", func(g *G, a []Value) Value { return g.indexFork(bytesOfSlice(a[0]), bytesOfSlice(a[1])) })
	reg("bytes.IndexByte", func(g *G, a []Value) Value { return idxByte(g, bytesOfSlice(a[0]), a[1].(*Expr)) })
	reg("strings.Contains", func(g *G, a []Value) Value { return g.containsExpr(strBytes(a[0]), strBytes(a[1])) })
	reg("bytes.Contains", func(g *G, a []Value) Value { return g.containsExpr(bytesOfSlice(a[0]), bytesOfSlice(a[1])) })
	regT("strings.genSplit", func(g *G, a []Value) (Value, bool) {
		sep, ok := a[1].(string)
		n := a[3].(*Expr)
		if !ok || len(sep) != 1 || !n.isConst() || int64(n.c) >= 0 {
			return nil, false
		}
		save := g.concInt(a[2], 0)
		b := strBytes(a[0])
		var r Slice
		last := 0
		for i := range b {
			if g.branch(g.m.ctx.Eq(b[i], mkConst(uint64(sep[0]), 8))) {
				r = append(r, mkStr(b[last:i+save]))
				last = i + 1
			}
		}
		r = append(r, mkStr(b[last:]))
		return r, true
	})
	regT("strings.Count", func(g *G, a []Value) (Value, bool) {
		if strLen(a[1]) == 1 {
			return g.countByte(strBytes(a[0]), strByte(a[1], 0)), true
		}
		return nil, false
	})
	regT("strings.ToLower", func(g *G, a []Value) (Value, bool) {
		if s, ok := a[0].(string); ok {
			return strings.ToLower(s), true
		}
		b := strBytes(a[0])
		if !g.branch(g.allASCII(b)) {
			return nil, false
		}
		r := make([]*Expr, len(b))
		for i := range b {
			r[i] = g.lower(b[i])
		}
		return mkStr(r), true
	})
	regT("strings.ToUpper", func(g *G, a []Value) (Value, bool) {
		if s, ok := a[0].(string); ok {
			return strings.ToUpper(s), true
		}
		b := strBytes(a[0])
		if !g.branch(g.allASCII(b)) {
			return nil, false
		}
		r := make([]*Expr, len(b))
		for i := range b {
			r[i] = g.upper(b[i])
		}
		return mkStr(r), true
	})
	regT("strings.EqualFold", func(g *G, a []Value) (Value, bool) {
		if s, ok := a[0].(string); ok {
			if t, ok := a[1].(string); ok {
				return mkBool(strings.EqualFold(s, t)), true
			}
		}
		x, y := strBytes(a[0]), strBytes(a[1])
		if !g.branch(g.m.ctx.And(g.allASCII(x), g.allASCII(y))) {
			return nil, false
		}
		if len(x) != len(y) {
			return eFalse, true
		}
		r := eTrue
		for i := range x {
			r = g.m.ctx.And(r, g.m.ctx.Eq(g.lower(x[i]), g.lower(y[i])))
		}
		return r, true
	})
	reg("(*strings.Builder).copyCheck", func(g *G, a []Value) Value { return nil })
	reg("internal/abi.NoEscape", func(g *G, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(g *G, a []Value) Value { return a[0] })
	reg("strings.noescape", func(g *G, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(g *G, a []Value) Value { return a[0] })
	reg("strings.Clone", func(g *G, a []Value) Value { return a[0] })
	reg("runtime.KeepAlive", func(g *G, a []Value) Value { return nil })
	reg("runtime.Gosched", func(g *G, a []Value) Value { g.gosched(); return nil })
	reg("runtime.GC", func(g *G, a []Value) Value { return nil })
	reg("runtime.SetFinalizer", func(g *G, a []Value) Value { return nil })
	reg("runtime.GOMAXPROCS", func(g *G, a []Value) Value { return i64(1) })
	reg("runtime.NumCPU", func(g *G, a []Value) Value { return i64(1) })
	reg("runtime.Callers", func(g *G, a []Value) Value { return i64(0) })
	reg("runtime.Caller", func(g *G, a []Value) Value { return Tuple{i64(0), "", i64(0), eFalse} })
	reg("runtime.Stack", func(g *G, a []Value) Value { return i64(0) })
	reg("runtime/debug.Stack", func(g *G, a []Value) Value { return sliceOfString("stack") })
	reg("runtime/debug.PrintStack", func(g *G, a []Value) Value { return nil })

	// ---- unicode ----
	uni := func(name string, f func(rune) bool, asc func(g *G, r *Expr) *Expr) {
		regT("unicode."+name, func(g *G, a []Value) (Value, bool) {
			r := a[0].(*Expr)
			if r.isConst() {
				return mkBool(f(rune(int32(r.c)))), true
			}
			if g.branch(g.m.ctx.ULt(r, mkConst(0x80, 32))) {
				return asc(g, r), true
			}
			return nil, false
		})
	}
	rng := func(g *G, r *Expr, lo, hi rune) *Expr {
		return g.m.ctx.And(g.m.ctx.ULe(mkConst(uint64(lo), 32), r), g.m.ctx.ULe(r, mkConst(uint64(hi), 32)))
	}
	byTable := func(f func(rune) bool) func(g *G, r *Expr) *Expr {
		return func(g *G, r *Expr) *Expr {
			res := eFalse
			for lo := rune(0); lo < 128; lo++ {
				if !f(lo) {
					continue
				}
				hi := lo
				for hi+1 < 128 && f(hi+1) {
					hi++
				}
				res = g.m.ctx.Or(res, rng(g, r, lo, hi))
				lo = hi
			}
			return res
		}
	}
	for name, f := range map[string]func(rune) bool{"IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit,
		"IsSpace": unicode.IsSpace, "IsPunct": unicode.IsPunct, "IsPrint": unicode.IsPrint, "IsControl": unicode.IsControl, "IsNumber": unicode.IsNumber, "IsGraphic": unicode.IsGraphic} {
		uni(name, f, byTable(f))
	}
	conv := func(name string, f func(rune) rune, lo, hi rune, delta int64) {
		regT("unicode."+name, func(g *G, a []Value) (Value, bool) {
			r := a[0].(*Expr)
			if r.isConst() {
				return mkConst(uint64(uint32(f(rune(int32(r.c))))), 32), true
			}
			if g.branch(g.m.ctx.ULt(r, mkConst(0x80, 32))) {
				return g.m.ctx.Ite(rng(g, r, lo, hi), g.m.ctx.Bin(opAdd, r, mkConst(uint64(delta), 32)), r), true
			}
			return nil, false
		})
	}
	conv("ToLower", unicode.ToLower, 'A', 'Z', 32)
	conv("ToUpper", unicode.ToUpper, 'a', 'z', -32)
	conv("ToTitle", unicode.ToTitle, 'a', 'z', -32)

	// ---- sync ----
	for _, n := range []string{"(*sync.Mutex)", "(*internal/sync.Mutex)"} {
		reg(n+".Lock", func(g *G, a []Value) Value { g.mutexLock(nonNil(g, a[0])); return nil })
		reg(n+".Unlock", func(g *G, a []Value) Value { g.mutexUnlock(nonNil(g, a[0])); return nil })
		reg(n+".TryLock", func(g *G, a []Value) Value { return mkBool(g.mutexTryLock(nonNil(g, a[0]))) })
	}
	reg("(*sync.RWMutex).Lock", func(g *G, a []Value) Value { g.mutexLock(nonNil(g, a[0])); return nil })
	reg("(*sync.RWMutex).Unlock", func(g *G, a []Value) Value { g.mutexUnlock(nonNil(g, a[0])); return nil })
	reg("(*sync.RWMutex).RLock", func(g *G, a []Value) Value { g.rLock(nonNil(g, a[0])); return nil })
	reg("(*sync.RWMutex).RUnlock", func(g *G, a []Value) Value { g.rUnlock(nonNil(g, a[0])); return nil })
	wg := func(g *G, p Value) *wgState {
		k := nonNil(g, p)
		w := g.m.path.wgs[k]
		if w == nil {
			w = &wgState{}
			g.m.path.wgs[k] = w
		}
		return w
	}
	wgAdd := func(g *G, p Value, d int64) {
		w := wg(g, p)
		if d < 0 {
			w.vc = joinVC(w.vc, g.vc)
			g.tick()
		}
		w.n += d
		if w.n < 0 {
			panic(targetPanic{Iface{g.m.P.errT, "sync: negative WaitGroup counter"}, g.m.srcLoc()})
		}
		g.schedPoint()
	}
	reg("(*sync.WaitGroup).Add", func(g *G, a []Value) Value { wgAdd(g, a[0], int64(g.concInt(a[1], 0))); return nil })
	reg("(*sync.WaitGroup).Done", func(g *G, a []Value) Value { wgAdd(g, a[0], -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(g *G, a []Value) Value {
		w := wg(g, a[0])
		g.schedPoint()
		g.park("WaitGroup.Wait", func() bool { return w.n == 0 })
		g.acquire(w.vc)
		return nil
	})
	reg("(*sync.Pool).Get", poolGet)
	reg("(*sync.Pool).Put", func(g *G, a []Value) Value {
		x := a[1].(Iface)
		if x.t == nil || g.m.initDepth > 0 {
			return nil
		}
		k := nonNil(g, a[0])
		ps := g.m.path.pools[k]
		if ps == nil {
			ps = &poolState{}
			g.m.path.pools[k] = ps
		}
		ps.objs = append(ps.objs, bufItem{x, g.release()})
		g.schedPoint()
		return nil
	})
	// sync.Map
	smap := func(g *G, p Value) *Map {
		k := nonNil(g, p)
		if v, ok := g.m.sideInit[k]; ok {
			return v.(*Map)
		}
		if g.m.initDepth > 0 {
			mp := g.newMap(types.NewInterfaceType(nil, nil))
			g.m.sideInit[k] = mp
			return mp
		}
		if v, ok := g.m.path.sides[k]; ok {
			return v.(*Map)
		}
		mp := g.newMap(types.NewInterfaceType(nil, nil))
		g.m.path.sides[k] = mp
		return mp
	}
	noRace := func(g *G, mp *Map, f func()) {
		g.schedPoint()
		g.acqObj(mp)
		r := g.m.path.raceOn
		g.m.path.raceOn = false
		f()
		g.m.path.raceOn = r
		g.relObj(mp)
	}
	reg("(*sync.Map).Load", func(g *G, a []Value) Value {
		mp := smap(g, a[0])
		var v Value
		var ok bool
		noRace(g, mp, func() { v, ok = g.mapGet(mp, a[1]) })
		if !ok {
			v = Iface{}
		}
		return Tuple{v, mkBool(ok)}
	})
	reg("(*sync.Map).Store", func(g *G, a []Value) Value {
		mp := smap(g, a[0])
		noRace(g, mp, func() { g.mapSet(mp, a[1], a[2]) })
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(g *G, a []Value) Value {
		mp := smap(g, a[0])
		var v Value
		var ok bool
		noRace(g, mp, func() {
			v, ok = g.mapGet(mp, a[1])
			if !ok {
				g.mapSet(mp, a[1], a[2])
				v = a[2]
			}
		})
		return Tuple{v, mkBool(ok)}
	})
	reg("(*sync.Map).LoadAndDelete", func(g *G, a []Value) Value {
		mp := smap(g, a[0])
		var v Value
		var ok bool
		noRace(g, mp, func() {
			v, ok = g.mapGet(mp, a[1])
			if ok {
				g.mapDelete(mp, a[1])
			}
		})
		if !ok {
			v = Iface{}
		}
		return Tuple{v, mkBool(ok)}
	})
	reg("(*sync.Map).Swap", func(g *G, a []Value) Value {
		mp := smap(g, a[0])
		var v Value
		var ok bool
		noRace(g, mp, func() {
			v, ok = g.mapGet(mp, a[1])
			g.mapSet(mp, a[1], a[2])
		})
		if !ok {
			v = Iface{}
		}
		return Tuple{v, mkBool(ok)}
	})
	reg("(*sync.Map).CompareAndDelete", func(g *G, a []Value) Value {
		mp := smap(g, a[0])
		res := false
		noRace(g, mp, func() {
			if v, ok := g.mapGet(mp, a[1]); ok && g.branch(g.equals(v, a[2])) {
				g.mapDelete(mp, a[1])
				res = true
			}
		})
		return mkBool(res)
	})
	reg("(*sync.Map).CompareAndSwap", func(g *G, a []Value) Value {
		mp := smap(g, a[0])
		res := false
		noRace(g, mp, func() {
			if v, ok := g.mapGet(mp, a[1]); ok && g.branch(g.equals(v, a[2])) {
				g.mapSet(mp, a[1], a[3])
				res = true
			}
		})
		return mkBool(res)
	})
	reg("(*sync.Map).Delete", func(g *G, a []Value) Value {
		mp := smap(g, a[0])
		noRace(g, mp, func() { g.mapDelete(mp, a[1]) })
		return nil
	})
	reg("(*sync.Map).Range", func(g *G, a []Value) Value {
		mp := smap(g, a[0])
		ents := append([]*mapEntry(nil), mp.ents...)
		for _, e := range ents {
			if e.deleted {
				continue
			}
			r := g.m.call(g, a[1], []Value{*e.k, *e.v})
			if !g.branch(r.(*Expr)) {
				break
			}
		}
		return nil
	})
	// ---- atomics ----
	for _, w := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			_ = pk
		}
		n := w.n
		reg("sync/atomic.Load"+n, func(g *G, a []Value) Value {
			return g.atomicOp(a[0], func(old Value) (Value, Value) { return old, nil })
		})
		reg("sync/atomic.Store"+n, func(g *G, a []Value) Value {
			g.atomicOp(a[0], func(old Value) (Value, Value) { return nil, a[1] })
			return nil
		})
		reg("sync/atomic.Swap"+n, func(g *G, a []Value) Value {
			return g.atomicOp(a[0], func(old Value) (Value, Value) { return old, a[1] })
		})
		reg("sync/atomic.CompareAndSwap"+n, func(g *G, a []Value) Value {
			return g.atomicOp(a[0], func(old Value) (Value, Value) {
				if g.branch(g.equals(old, a[1])) {
					return eTrue, a[2]
				}
				return eFalse, nil
			})
		})
		if w.w != 0 {
			reg("sync/atomic.Add"+n, func(g *G, a []Value) Value {
				return g.atomicOp(a[0], func(old Value) (Value, Value) {
					nv := g.m.ctx.Bin(opAdd, old.(*Expr), a[1].(*Expr))
					return nv, nv
				})
			})
			reg("sync/atomic.And"+n, func(g *G, a []Value) Value {
				return g.atomicOp(a[0], func(old Value) (Value, Value) {
					return old, g.m.ctx.Bin(opBAnd, old.(*Expr), a[1].(*Expr))
				})
			})
			reg("sync/atomic.Or"+n, func(g *G, a []Value) Value {
				return g.atomicOp(a[0], func(old Value) (Value, Value) {
					return old, g.m.ctx.Bin(opBOr, old.(*Expr), a[1].(*Expr))
				})
			})
		}
	}
	// atomic.Pointer[T]: the pointer is kept in the last field
	lastField := func(g *G, p Value) *Value {
		s := (*nonNil(g, p)).(Struct)
		return &s[len(s)-1]
	}
	reg("(*sync/atomic.Pointer[T]).Load", func(g *G, a []Value) Value {
		return g.atomicOp(lastField(g, a[0]), func(old Value) (Value, Value) { return old, nil })
	})
	reg("(*sync/atomic.Pointer[T]).Store", func(g *G, a []Value) Value {
		g.atomicOp(lastField(g, a[0]), func(old Value) (Value, Value) { return nil, a[1] })
		return nil
	})
	reg("(*sync/atomic.Pointer[T]).Swap", func(g *G, a []Value) Value {
		return g.atomicOp(lastField(g, a[0]), func(old Value) (Value, Value) { return old, a[1] })
	})
	reg("(*sync/atomic.Pointer[T]).CompareAndSwap", func(g *G, a []Value) Value {
		return g.atomicOp(lastField(g, a[0]), func(old Value) (Value, Value) {
			if g.branch(g.equals(old, a[1])) {
				return eTrue, a[2]
			}
			return eFalse, nil
		})
	})
	reg("(*sync/atomic.Value).Load", func(g *G, a []Value) Value {
		return g.atomicOp(lastField(g, a[0]), func(old Value) (Value, Value) { return old, nil })
	})
	reg("(*sync/atomic.Value).Store", func(g *G, a []Value) Value {
		g.atomicOp(lastField(g, a[0]), func(old Value) (Value, Value) {
			if a[1].(Iface).t == nil {
				panic(targetPanic{Iface{g.m.P.errT, "sync/atomic: store of nil value into Value"}, g.m.srcLoc()})
			}
			return nil, a[1]
		})
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(g *G, a []Value) Value {
		return g.atomicOp(lastField(g, a[0]), func(old Value) (Value, Value) { return old, a[1] })
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(g *G, a []Value) Value {
		return g.atomicOp(lastField(g, a[0]), func(old Value) (Value, Value) {
			if g.branch(g.equals(old, a[1])) {
				return eTrue, a[2]
			}
			return eFalse, nil
		})
	})

	// ---- godebug, os, log ----
	reg("internal/godebug.New", func(g *G, a []Value) Value {
		p := new(Value)
		*p = zero(g.m.P.typeOf("internal/godebug", "Setting"))
		return p
	})
	reg("(*internal/godebug.Setting).Value", func(g *G, a []Value) Value { return "" })
	reg("(*internal/godebug.Setting).Name", func(g *G, a []Value) Value { return "" })
	reg("(*internal/godebug.Setting).IncNonDefault", func(g *G, a []Value) Value { return nil })
	reg("internal/godebug.setUpdate", func(g *G, a []Value) Value { return nil })
	reg("os.Getenv", func(g *G, a []Value) Value { return "" })
	reg("os.LookupEnv", func(g *G, a []Value) Value { return Tuple{"", eFalse} })
	logN := func(g *G, a []Value) Value { g.m.path.logCalls++; return nil }
	for _, n := range []string{"Print", "Printf", "Println"} {
		reg("log."+n, logN)
		reg("(*log.Logger)."+n, logN)
		reg("fmt."+n, func(g *G, a []Value) Value { return Tuple{i64(0), Iface{}} })
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		reg("log."+n, func(g *G, a []Value) Value {
			panic(targetPanic{Iface{g.m.P.errT, "log.Fatal called"}, g.m.srcLoc()})
		})
	}
	reg("os.Exit", func(g *G, a []Value) Value {
		panic(targetPanic{Iface{g.m.P.errT, "os.Exit called"}, g.m.srcLoc()})
	})

	// ---- reflectlite / errors ----
	for _, pk := range []string{"internal/reflectlite", "reflect"} {
		pk := pk
		reg(pk+".TypeOf", func(g *G, a []Value) Value { return g.m.P.rtypeIface(a[0].(Iface).t) })
		reg(pk+".ValueOf", func(g *G, a []Value) Value {
			s := zero(g.m.P.typeOf(pk, "Value")).(Struct)
			s[0] = a[0]
			return s
		})
		reg("("+pk+".Value).Len", func(g *G, a []Value) Value {
			switch x := a[0].(Struct)[0].(Iface).v.(type) {
			case Slice:
				return i64(int64(len(x)))
			case string, *SymStr:
				return i64(int64(strLen(x)))
			case *Map:
				if x == nil {
					return i64(0)
				}
				return i64(int64(x.n))
			}
			panic(unsupported("reflect Len"))
		})
		reg(pk+".Swapper", func(g *G, a []Value) Value {
			s, ok := a[0].(Iface).v.(Slice)
			if !ok {
				panic(unsupported("Swapper"))
			}
			return &Native{"swap", func(g *G, b []Value) Value {
				i, j := g.concInt(b[0], 0), g.concInt(b[1], 0)
				x, y := copyVal(s[i]), copyVal(s[j])
				g.storeCell(&s[i], y)
				g.storeCell(&s[j], x)
				return nil
			}}
		})
	}
	reg("reflect.DeepEqual", func(g *G, a []Value) Value { return g.deepEqual(a[0], a[1], 0) })
	reg("errors.As", errorsAs)

	// ---- fmt ----
	reg("fmt.Sprintf", func(g *G, a []Value) Value { s, _ := g.format(a[0], a[1].(Slice)); return s })
	reg("fmt.Sprint", func(g *G, a []Value) Value { return g.sprint(a[0].(Slice), false) })
	reg("fmt.Sprintln", func(g *G, a []Value) Value { return strConcat(g.sprint(a[0].(Slice), true), "\n") })
	reg("fmt.Errorf", fmtErrorf)
	fprint := func(g *G, w Value, s Value) Value {
		b := sliceOfBytes(strBytes(s))
		return g.invoke(w.(Iface), "Write", []Value{b})
	}
	reg("fmt.Fprintf", func(g *G, a []Value) Value { s, _ := g.format(a[1], a[2].(Slice)); return fprint(g, a[0], s) })
	reg("fmt.Fprint", func(g *G, a []Value) Value { return fprint(g, a[0], g.sprint(a[1].(Slice), false)) })
	reg("fmt.Fprintln", func(g *G, a []Value) Value {
		return fprint(g, a[0], strConcat(g.sprint(a[1].(Slice), true), "\n"))
	})
	reg("fmt.Append", func(g *G, a []Value) Value {
		return g.builtin("append", []Value{a[0], g.sprint(a[1].(Slice), false)}, nil)
	})
	reg("fmt.Appendf", func(g *G, a []Value) Value {
		s, _ := g.format(a[1], a[2].(Slice))
		return g.builtin("append", []Value{a[0], s}, nil)
	})

	// ---- randomness ----
	// Draws come from one fixed sequence per path: that different draws differ is the contract the
	// code relies on, a particular value is not.
	draw := func(g *G) uint64 {
		p := g.m.path
		p.randSeq = p.randSeq*6364136223846793005 + 1442695040888963407
		x := p.randSeq
		x ^= x >> 33
		x *= 0xff51afd7ed558ccd
		return x ^ x>>33
	}
	rnd := func(w uint8, lim func(g *G, a []Value, x uint64) uint64) func(g *G, a []Value) Value {
		return func(g *G, a []Value) Value {
			x := draw(g)
			if lim != nil {
				x = lim(g, a, x)
			}
			return mkConst(x&mask(w), w)
		}
	}
	nonneg := func(g *G, a []Value, x uint64) uint64 { return x >> 34 }
	nonneg64 := func(g *G, a []Value, x uint64) uint64 { return x >> 1 }
	below := func(g *G, a []Value, x uint64) uint64 {
		n := g.concretize(a[len(a)-1].(*Expr))
		if int64(n) <= 0 {
			g.rtPanic("invalid argument to a random draw")
		}
		return x % n
	}
	for _, p := range []string{"math/rand.", "(*math/rand.Rand).", "math/rand/v2.", "(*math/rand/v2.Rand)."} {
		reg(p+"Int63", rnd(64, nonneg64))
		reg(p+"Int", rnd(64, nonneg64))
		reg(p+"Int31", rnd(32, nonneg))
		reg(p+"Int64", rnd(64, nonneg64))
		reg(p+"Int32", rnd(32, nonneg))
		reg(p+"Uint32", rnd(32, nil))
		reg(p+"Uint64", rnd(64, nil))
		reg(p+"Intn", rnd(64, below))
		reg(p+"IntN", rnd(64, below))
		reg(p+"Int63n", rnd(64, below))
		reg(p+"Int64N", rnd(64, below))
		reg(p+"Int31n", rnd(32, below))
		reg(p+"Int32N", rnd(32, below))
		reg(p+"Seed", func(g *G, a []Value) Value { return nil })
	}
	reg("math/rand.NewSource", func(g *G, a []Value) Value { return Iface{g.m.P.typeOf("math/rand", "Rand"), new(Value)} })
	reg("math/rand.New", func(g *G, a []Value) Value {
		p := new(Value)
		*p = zero(g.m.P.typeOf("math/rand", "Rand"))
		return p
	})
	crnd := func(g *G, a []Value) Value {
		s := a[len(a)-1].(Slice)
		for i := range s {
			g.storeCell(&s[i], g.cryptoByte())
		}
		return Tuple{i64(int64(len(s))), Iface{}}
	}
	reg("crypto/rand.Read", crnd)
	reg("(*crypto/rand.reader).Read", crnd)

	// ---- strconv fast paths ----
	isPrint := func(g *G, a []Value) Value {
		r := a[0].(*Expr)
		if r.isConst() {
			return mkBool(strconv.IsPrint(rune(int32(r.c))))
		}
		ctx := g.m.ctx
		mx := umaxOf(r)
		res := eFalse
		for _, rg := range printRanges() {
			if uint64(rg[0]) > mx {
				break
			}
			res = ctx.Or(res, ctx.And(ctx.ULe(mkConst(uint64(rg[0]), r.w), r), ctx.ULe(r, mkConst(uint64(rg[1]), r.w))))
		}
		return res
	}
	reg("strconv.IsPrint", isPrint)
	reg("internal/strconv.IsPrint", isPrint)
	regT("strconv.Itoa", func(g *G, a []Value) (Value, bool) {
		e := a[0].(*Expr)
		if e.isConst() {
			return strconv.Itoa(int(sext64(e.c, 64))), true
		}
		return g.decimal(e, true), true
	})
	regT("strconv.FormatInt", func(g *G, a []Value) (Value, bool) {
		e, b := a[0].(*Expr), a[1].(*Expr)
		if e.isConst() && b.isConst() {
			return strconv.FormatInt(sext64(e.c, 64), int(b.c)), true
		}
		if b.isConst() && b.c == 10 {
			return g.decimal(e, true), true
		}
		return nil, false
	})
	regT("strconv.FormatUint", func(g *G, a []Value) (Value, bool) {
		e, b := a[0].(*Expr), a[1].(*Expr)
		if e.isConst() && b.isConst() {
			return strconv.FormatUint(e.c, int(b.c)), true
		}
		if b.isConst() && b.c == 10 {
			return g.decimal(e, false), true
		}
		return nil, false
	})
	regT("strconv.AppendInt", func(g *G, a []Value) (Value, bool) {
		b := a[2].(*Expr)
		if b.isConst() && b.c == 10 {
			return append(append(Slice{}, a[0].(Slice)...), sliceOfBytes(strBytes(g.decimal(a[1].(*Expr), true)))...), true
		}
		return nil, false
	})
	regT("strconv.AppendUint", func(g *G, a []Value) (Value, bool) {
		b := a[2].(*Expr)
		if b.isConst() && b.c == 10 {
			return append(append(Slice{}, a[0].(Slice)...), sliceOfBytes(strBytes(g.decimal(a[1].(*Expr), false)))...), true
		}
		return nil, false
	})
	reg("math.Float64bits", func(g *G, a []Value) Value { panic(unsupported("Float64bits")) })
	_ = atomic.AddInt64
}

func nonNil(g *G, v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		badValue(v, "receiver")
	}
	if p == nil {
		g.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func (g *G) atomicOp(pv Value, f func(old Value) (ret, nv Value)) Value {
	p := nonNil(g, pv)
	g.schedPoint()
	g.acqObj(p)
	ret, nv := f(copyVal(*p))
	if nv != nil {
		g.m.jset(p, nv)
	}
	g.relObj(p)
	return ret
}

func poolGet(g *G, a []Value) Value {
	k := nonNil(g, a[0])
	if g.m.initDepth == 0 {
		g.schedPoint()
		ps := g.m.path.pools[k]
		if ps != nil && len(ps.objs) > 0 {
			n := len(ps.objs)
			i := 0
			if g.m.path.poolAdv {
				i = g.choose(n + 1)
			}
			if i < n {
				ix := n - 1 - i
				it := ps.objs[ix]
				ps.objs = append(append([]bufItem(nil), ps.objs[:ix]...), ps.objs[ix+1:]...)
				g.acquire(it.vc)
				return it.v
			}
		}
	}
	s := (*k).(Struct)
	st := g.m.P.typeOf("sync", "Pool").Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "New" {
			if isNilFunc(s[i]) {
				return Iface{}
			}
			return g.m.call(g, s[i], nil)
		}
	}
	return Iface{}
}

func (P *Program) typeOf(pkg, name string) types.Type {
	p := P.pkgs[pkg]
	if p == nil {
		panic(unsupported("package not loaded: " + pkg))
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(unsupported("no type " + pkg + "." + name))
	}
	return o.Type()
}

// ---- reflection stand-ins ----

func (P *Program) rtypeIface(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	return Iface{types.NewPointer(P.typeOf("internal/reflectlite", "rtype")), &rtype{t}}
}

type rtype struct{ t types.Type }

func (r *rtype) method(name string) func(g *G, args []Value) Value {
	switch name {
	case "Comparable":
		return func(g *G, a []Value) Value { return mkBool(types.Comparable(r.t)) }
	case "Kind":
		return func(g *G, a []Value) Value { return mkConst(kindOf(r.t), 64) }
	case "String", "Name":
		return func(g *G, a []Value) Value {
			return types.TypeString(r.t, func(p *types.Package) string { return p.Name() })
		}
	}
	return func(g *G, a []Value) Value { panic(unsupported("reflect.Type." + name)) }
}

// kindOf is the reflect.Kind of a type.
func kindOf(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return uint64(reflect.UnsafePointer)
		case u.Kind() == types.String:
			return uint64(reflect.String)
		}
		return uint64(u.Kind()) // bool .. complex128 are numbered alike
	case *types.Array:
		return uint64(reflect.Array)
	case *types.Chan:
		return uint64(reflect.Chan)
	case *types.Signature:
		return uint64(reflect.Func)
	case *types.Interface:
		return uint64(reflect.Interface)
	case *types.Map:
		return uint64(reflect.Map)
	case *types.Pointer:
		return uint64(reflect.Pointer)
	case *types.Slice:
		return uint64(reflect.Slice)
	case *types.Struct:
		return uint64(reflect.Struct)
	}
	panic(unsupported("reflect kind of " + t.String()))
}

func (g *G) deepEqual(x, y Value, depth int) *Expr {
	if depth > 50 {
		panic(unsupported("DeepEqual depth"))
	}
	ctx := g.m.ctx
	switch a := x.(type) {
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return eFalse
		}
		if a.t == nil || b.t == nil {
			return mkBool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return eFalse
		}
		return g.deepEqual(a.v, b.v, depth+1)
	case Slice:
		b, ok := y.(Slice)
		if !ok || len(a) != len(b) || (a == nil) != (b == nil) {
			return eFalse
		}
		r := eTrue
		for i := range a {
			r = ctx.And(r, g.deepEqual(a[i], b[i], depth+1))
		}
		return r
	case Struct:
		b := y.(Struct)
		r := eTrue
		for i := range a {
			r = ctx.And(r, g.deepEqual(a[i], b[i], depth+1))
		}
		return r
	case Array:
		return g.deepEqual(Slice(a), Slice(y.(Array)), depth)
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return eFalse
		}
		if a == b {
			return eTrue
		}
		if a == nil || b == nil {
			return eFalse
		}
		return g.deepEqual(*a, *b, depth+1)
	case *Map:
		b := y.(*Map)
		if a == nil || b == nil {
			return mkBool(a == b)
		}
		if a.n != b.n {
			return eFalse
		}
		r := eTrue
		for _, e := range a.ents {
			if e.deleted {
				continue
			}
			v, ok := g.mapGet(b, *e.k)
			if !ok {
				return eFalse
			}
			r = ctx.And(r, g.deepEqual(*e.v, v, depth+1))
		}
		return r
	case *ssa.Function:
		return mkBool(a == nil && isNilFunc(y))
	case *Closure, *Native:
		return eFalse
	}
	return g.equals(x, y)
}

func (g *G) invoke(i Iface, name string, args []Value) Value {
	if i.t == nil {
		g.rtPanic("invalid memory address or nil pointer dereference")
	}
	if n, ok := i.v.(nativeMethods); ok {
		return n.method(name)(g, args)
	}
	fn := g.m.lookupMethodByName(i.t, name)
	if fn == nil {
		panic(unsupported("no method " + name + " on " + i.t.String()))
	}
	fr := g.fr
	r := g.m.callSSA(g, fn, append([]Value{copyVal(i.v)}, args...), nil)
	g.fr = fr
	return r
}

func errorsAs(g *G, a []Value) Value {
	err := a[0].(Iface)
	tgt := a[1].(Iface)
	if err.t == nil {
		return eFalse
	}
	if tgt.t == nil {
		panic(targetPanic{Iface{types.Typ[types.String], "errors: target cannot be nil"}, g.m.srcLoc()})
	}
	pt := tgt.t.Underlying().(*types.Pointer).Elem()
	it, isI := pt.Underlying().(*types.Interface)
	var walk func(e Iface) bool
	walk = func(e Iface) bool {
		for {
			if isI && g.m.implements(e.t, it) {
				g.store(tgt.v, e)
				return true
			}
			if !isI && types.Identical(e.t, pt) {
				g.store(tgt.v, e.v)
				return true
			}
			if fn := g.m.lookupMethodByName(e.t, "As"); fn != nil && fn.Signature.Params().Len() == 1 {
				if r, ok := g.invoke(e, "As", []Value{tgt}).(*Expr); ok && g.branch(r) {
					return true
				}
			}
			fn := g.m.lookupMethodByName(e.t, "Unwrap")
			if fn == nil {
				return false
			}
			r := g.invoke(e, "Unwrap", nil)
			switch x := r.(type) {
			case Iface:
				if x.t == nil {
					return false
				}
				e = x
			case Slice:
				for _, s := range x {
					if se := s.(Iface); se.t != nil && walk(se) {
						return true
					}
				}
				return false
			default:
				return false
			}
		}
	}
	return mkBool(walk(err))
}

func (g *G) newStructPtr(pkg, typ string, fields ...Value) Iface {
	t := g.m.P.typeOf(pkg, typ)
	p := new(Value)
	*p = Struct(fields)
	return Iface{types.NewPointer(t), p}
}

func (m *Machine) panicNilError(g *G) Iface {
	p := new(Value)
	t := m.P.typeOf("runtime", "PanicNilError")
	*p = zero(t)
	return Iface{types.NewPointer(t), p}
}

func fmtErrorf(g *G, a []Value) Value {
	args := a[1].(Slice)
	s, wraps := g.format(a[0], args)
	switch len(wraps) {
	case 0:
		return g.newStructPtr("errors", "errorString", s)
	case 1:
		e, _ := args[wraps[0]].(Iface)
		if e.t != nil && g.m.lookupMethodByName(e.t, "Error") == nil {
			e = Iface{}
		}
		return g.newStructPtr("fmt", "wrapError", s, e)
	}
	var errs Slice
	for _, i := range wraps {
		if e := args[i].(Iface); e.t != nil {
			errs = append(errs, e)
		}
	}
	return g.newStructPtr("fmt", "wrapErrors", s, errs)
}

// ---- formatting ----

func (g *G) sprint(args Slice, ln bool) Value {
	var r Value = ""
	prevString := false
	for i, x := range args {
		it := x.(Iface)
		_, isS := it.v.(string)
		_, isSS := it.v.(*SymStr)
		isString := isS || isSS
		if i > 0 && (ln || (!isString && !prevString)) {
			r = strConcat(r, " ")
		}
		r = strConcat(r, g.fmtArg("%v", 'v', it))
		prevString = isString
	}
	return r
}

func (g *G) format(fv Value, args Slice) (Value, []int) {
	f := cstr(fv)
	var r Value = ""
	var wraps []int
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			r = strConcat(r, f[i:])
			break
		}
		r = strConcat(r, f[i:i+j])
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			r = strConcat(r, "%!(NOVERB)")
			break
		}
		verb := f[k]
		spec := f[i : k+1]
		i = k + 1
		if verb == '%' {
			r = strConcat(r, "%")
			continue
		}
		if ai >= len(args) {
			r = strConcat(r, "%!"+string(verb)+"(MISSING)")
			continue
		}
		it := args[ai].(Iface)
		if verb == 'w' {
			wraps = append(wraps, ai)
			spec = spec[:len(spec)-1] + "v"
			verb = 'v'
		}
		ai++
		r = strConcat(r, g.fmtArg(spec, verb, it))
	}
	if ai < len(args) {
		r = strConcat(r, "%!(EXTRA )")
	}
	return r, wraps
}

func (g *G) fmtArg(spec string, verb byte, it Iface) Value {
	if it.t == nil {
		if verb == 'T' {
			return "<nil>"
		}
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return types.TypeString(it.t, func(p *types.Package) string { return p.Name() })
	}
	if verb == 'p' {
		return "0xc000000000"
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if spec != "%#v" && spec != "%d" {
			for _, mn := range []string{"Error", "String"} {
				if fn := g.m.lookupMethodByName(it.t, mn); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 {
					if b, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
						if isNilPtr(it.v) {
							return "<nil>"
						}
						s := g.invoke(it, mn, nil)
						return g.fmtStr(spec, verb, s)
					}
				}
			}
		}
	}
	switch x := it.v.(type) {
	case string, *SymStr:
		return g.fmtStr(spec, verb, x)
	case *Expr:
		if x.w == 0 {
			return fmt.Sprintf(spec, g.branch(x))
		}
		_, signed, _ := intWidth(it.t)
		if !x.isConst() {
			if (verb == 'd' || verb == 'v') && len(spec) == 2 {
				if signed {
					return g.callPkg("strconv", "FormatInt", []Value{g.m.ctx.SExt(x, 64), i64(10)})
				}
				return g.callPkg("strconv", "FormatUint", []Value{g.m.ctx.ZExt(x, 64), i64(10)})
			}
			if verb == 'c' {
				return g.runeToStr(x)
			}
			x = mkConst(g.concretize(x), x.w)
		}
		if signed {
			return fmt.Sprintf(spec, sext64(x.c, x.w))
		}
		return fmt.Sprintf(spec, x.c)
	case float64:
		return fmt.Sprintf(spec, x)
	case Slice:
		st, ok := it.t.Underlying().(*types.Slice)
		if !ok {
			break
		}
		if w, _, ok := intWidth(st.Elem()); ok && w == 8 && (verb == 's' || verb == 'q' || verb == 'x') {
			return g.fmtStr(spec, verb, mkStr(bytesOfSlice(x)))
		}
		var r Value = "["
		for i, e := range x {
			if i > 0 {
				r = strConcat(r, " ")
			}
			r = strConcat(r, g.fmtArg(spec, verb, g.asIface(st.Elem(), e)))
		}
		return strConcat(r, "]")
	case Struct:
		st := it.t.Underlying().(*types.Struct)
		var r Value = "{"
		for i, e := range x {
			if i > 0 {
				r = strConcat(r, " ")
			}
			if strings.Contains(spec, "+") {
				r = strConcat(r, st.Field(i).Name()+":")
			}
			r = strConcat(r, g.fmtArg(spec, verb, g.asIface(st.Field(i).Type(), e)))
		}
		return strConcat(r, "}")
	case *Value:
		if x == nil {
			return "<nil>"
		}
		if s, ok := (*x).(Struct); ok {
			return strConcat("&", g.fmtArg(spec, verb, Iface{it.t.Underlying().(*types.Pointer).Elem(), s}))
		}
		return "0xc000000000"
	case *Map:
		var r Value = "map["
		mt := it.t.Underlying().(*types.Map)
		if x != nil {
			first := true
			for _, e := range x.ents {
				if e.deleted {
					continue
				}
				if !first {
					r = strConcat(r, " ")
				}
				first = false
				r = strConcat(r, g.fmtArg("%v", 'v', g.asIface(mt.Key(), *e.k)))
				r = strConcat(r, ":")
				r = strConcat(r, g.fmtArg("%v", 'v', g.asIface(mt.Elem(), *e.v)))
			}
		}
		return strConcat(r, "]")
	case *ssa.Function, *Closure, *Native, *Chan, *Opaque:
		return "0xc000000000"
	}
	panic(unsupported(fmt.Sprintf("fmt %s of %s (%T)", spec, it.t, it.v)))
}

func (g *G) asIface(t types.Type, v Value) Iface {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{t, v}
}

func (g *G) fmtStr(spec string, verb byte, s Value) Value {
	if c, ok := s.(string); ok {
		return fmt.Sprintf(spec, c)
	}
	if (verb == 's' || verb == 'v') && len(spec) == 2 {
		return s
	}
	if verb == 'q' && len(spec) == 2 {
		return g.callPkg("strconv", "Quote", []Value{s})
	}
	if verb == 'x' && len(spec) == 2 {
		var r []*Expr
		ctx := g.m.ctx
		hex := func(n *Expr) *Expr {
			return ctx.Ite(ctx.ULt(n, mkConst(10, 8)), ctx.Bin(opAdd, n, mkConst('0', 8)), ctx.Bin(opAdd, n, mkConst('a'-10, 8)))
		}
		for _, b := range strBytes(s) {
			r = append(r, hex(ctx.Bin(opLShr, b, mkConst(4, 8))), hex(ctx.Bin(opBAnd, b, mkConst(15, 8))))
		}
		return mkStr(r)
	}
	panic(unsupported("format " + spec + " of a symbolic string"))
}

func (g *G) callPkg(pkg, name string, args []Value) Value {
	p := g.m.P.pkgs[pkg]
	if p == nil {
		panic(unsupported("package not loaded " + pkg))
	}
	fn := p.Func(name)
	fr := g.fr
	r := g.m.callSSA(g, fn, args, nil)
	g.fr = fr
	return r
}

// ---- fresh variables ----

func (g *G) uniq(hint string) string {
	p := g.m.path
	n := p.names[hint]
	p.names[hint] = n + 1
	return fmt.Sprintf("%s#%d", hint, n)
}

var printOnce sync.Once
var printTab [][2]rune

// printRanges lists the printable code points as ranges.
func printRanges() [][2]rune {
	printOnce.Do(func() {
		for r := rune(0); r <= 0x10ffff; r++ {
			if strconv.IsPrint(r) {
				if n := len(printTab); n > 0 && printTab[n-1][1] == r-1 {
					printTab[n-1][1] = r
				} else {
					printTab = append(printTab, [2]rune{r, r})
				}
			}
		}
	})
	return printTab
}

// decimal is the base-10 text of a 64-bit value. A symbolic value is described by fresh digits d
// with value = d0*10^k + ... + dk, which avoids symbolic division.
func (g *G) decimal(e *Expr, signed bool) Value {
	ctx, p := g.m.ctx, g.m.path
	if e.isConst() {
		if signed {
			return strconv.FormatInt(sext64(e.c, 64), 10)
		}
		return strconv.FormatUint(e.c, 10)
	}
	var out []*Expr
	if signed && g.branch(ctx.SLt(e, mkConst(0, 64))) {
		out = append(out, mkConst('-', 8))
		e = ctx.Bin(opSub, mkConst(0, 64), e)
	}
	n := 1
	for lim := uint64(10); n < 20; n++ {
		if g.branch(ctx.ULt(e, mkConst(lim, 64))) {
			break
		}
		lim *= 10
	}
	txt := fmt.Sprintf("%0*d", n, ctx.Eval(e, p.model))
	acc := mkConst(0, 64)
	var ds []*Expr
	for i := 0; i < n; i++ {
		d := g.freshVar("digit", 8)
		p.model[d] = uint64(txt[i])
		ds = append(ds, d)
	}
	ctx.newEpoch()
	for i, d := range ds {
		lo := byte('0')
		if i == 0 && n > 1 {
			lo = '1'
		}
		p.addPC(ctx, g.inRange(d, lo, '9'))
		acc = ctx.Bin(opMul, acc, mkConst(10, 64))
		acc = ctx.Bin(opAdd, acc, ctx.ZExt(ctx.Bin(opSub, d, mkConst('0', 8)), 64))
	}
	p.addPC(ctx, ctx.Eq(e, acc))
	if e.op == opZExt || e.op == opSExt {
		// implied, and spares the solver an equivalence between 64- and narrow-width sums
		p.addPC(ctx, ctx.Eq(e.a, ctx.Trunc(acc, e.a.w)))
	}
	return mkStr(append(out, ds...))
}

func (g *G) freshVar(hint string, w uint8) *Expr {
	nm := g.uniq(hint)
	return g.m.ctx.Var(fmt.Sprintf("%s@%d", nm, w), w)
}

// cryptoByte models the entropy source. Different reads never collide (that is the contract the
// code relies on), so bytes come from a per-path counter.
func (g *G) cryptoByte() *Expr {
	p := g.m.path
	if p.entropyOn {
		if p.entropyPos++; p.entropyPos <= len(p.entropy) {
			return p.entropy[p.entropyPos-1]
		}
		return mkConst(0, 8)
	}
	p.randSeq = p.randSeq*6364136223846793005 + 1442695040888963407
	return mkConst((p.randSeq>>33)&0xff, 8)
}

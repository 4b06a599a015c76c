package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// UPtr is an unsafe.Pointer remembering what it points at.
type UPtr struct {
	p    Value
	elem types.Type
}

func (g *G) binop(in *ssa.BinOp, x, y Value) Value {
	ctx := g.m.ctx
	switch in.Op {
	case token.EQL:
		return g.equals(x, y)
	case token.NEQ:
		return ctx.Not(g.equals(x, y))
	}
	switch a := x.(type) {
	case *Expr:
		b, ok := y.(*Expr)
		if !ok {
			badValue(y, "binop")
		}
		_, signed, _ := intWidth(in.X.Type())
		switch in.Op {
		case token.ADD:
			return ctx.Bin(opAdd, a, b)
		case token.SUB:
			return ctx.Bin(opSub, a, b)
		case token.MUL:
			return ctx.Bin(opMul, a, b)
		case token.QUO, token.REM:
			if g.branch(ctx.Eq(b, mkConst(0, b.w))) {
				g.rtPanic("integer divide by zero")
			}
			if in.Op == token.QUO {
				if signed {
					return ctx.Bin(opSDiv, a, b)
				}
				return ctx.Bin(opUDiv, a, b)
			}
			if signed {
				return ctx.Bin(opSRem, a, b)
			}
			return ctx.Bin(opURem, a, b)
		case token.AND:
			return ctx.Bin(opBAnd, a, b)
		case token.OR:
			return ctx.Bin(opBOr, a, b)
		case token.XOR:
			return ctx.Bin(opBXor, a, b)
		case token.AND_NOT:
			return ctx.Bin(opBAnd, a, ctx.Bin(opBXor, b, mkConst(mask(b.w), b.w)))
		case token.SHL, token.SHR:
			_, ysigned, _ := intWidth(in.Y.Type())
			if ysigned {
				if g.branch(ctx.SLt(b, mkConst(0, b.w))) {
					g.rtPanic("negative shift amount")
				}
			}
			// bring the shift amount to the width of a, saturating
			var sh *Expr
			if b.w <= a.w {
				sh = ctx.ZExt(b, a.w)
			} else {
				big := ctx.ULt(mkConst(uint64(a.w), b.w), b)
				sh = ctx.Ite(big, mkConst(uint64(a.w), a.w), ctx.Trunc(b, a.w))
			}
			if in.Op == token.SHL {
				return ctx.Bin(opShl, a, sh)
			}
			if signed {
				return ctx.Bin(opAShr, a, sh)
			}
			return ctx.Bin(opLShr, a, sh)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			p, q := a, b
			neg := false
			switch in.Op {
			case token.GTR:
				p, q = b, a
			case token.LEQ:
				p, q = b, a
				neg = true
			case token.GEQ:
				neg = true
			}
			var r *Expr
			if signed {
				r = ctx.SLt(p, q)
			} else {
				r = ctx.ULt(p, q)
			}
			if neg {
				r = ctx.Not(r)
			}
			return r
		}
	case string, *SymStr:
		switch in.Op {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return g.strLess(x, y)
		case token.GTR:
			return g.strLess(y, x)
		case token.LEQ:
			return ctx.Not(g.strLess(y, x))
		case token.GEQ:
			return ctx.Not(g.strLess(x, y))
		}
	case float64:
		b := y.(float64)
		f32 := false
		if bt, ok := in.X.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			f32 = true
		}
		rnd := func(f float64) Value {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		switch in.Op {
		case token.ADD:
			return rnd(a + b)
		case token.SUB:
			return rnd(a - b)
		case token.MUL:
			return rnd(a * b)
		case token.QUO:
			return rnd(a / b)
		case token.LSS:
			return mkBool(a < b)
		case token.GTR:
			return mkBool(a > b)
		case token.LEQ:
			return mkBool(a <= b)
		case token.GEQ:
			return mkBool(a >= b)
		}
	}
	badValue(x, "binop "+in.Op.String())
	return nil
}

func (g *G) strLess(x, y Value) *Expr {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return mkBool(a < b)
		}
	}
	ctx := g.m.ctx
	a, b := strBytes(x), strBytes(y)
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	res := mkBool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		res = ctx.Ite(ctx.Eq(a[i], b[i]), res, ctx.ULt(a[i], b[i]))
	}
	return res
}

func (g *G) strEq(x, y Value) *Expr {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return mkBool(a == b)
		}
	}
	if strLen(x) != strLen(y) {
		return eFalse
	}
	ctx := g.m.ctx
	r := eTrue
	n := strLen(x)
	for i := 0; i < n; i++ {
		r = ctx.And(r, ctx.Eq(strByte(x, i), strByte(y, i)))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// elemEq compares a pointer to an element at a symbolic index with another pointer.
func (g *G) elemEq(e ElemPtr, y Value) *Expr {
	ctx := g.m.ctx
	if p, ok := y.(*Value); ok && p == nil {
		return eFalse
	}
	r := eFalse
	for i := range e.s {
		r = ctx.Or(r, ctx.And(ctx.Eq(e.idx, mkConst(uint64(i), e.idx.w)), g.equals(&e.s[i], y)))
	}
	return r
}

func (g *G) equals(x, y Value) *Expr {
	ctx := g.m.ctx
	switch a := x.(type) {
	case *Expr:
		if b, ok := y.(*Expr); ok {
			return ctx.Eq(a, b)
		}
	case string, *SymStr:
		if isStr(y) {
			return g.strEq(x, y)
		}
	case float64:
		if b, ok := y.(float64); ok {
			return mkBool(a == b)
		}
	case complex128:
		if b, ok := y.(complex128); ok {
			return mkBool(a == b)
		}
	case *Value:
		switch b := y.(type) {
		case *Value:
			return mkBool(a == b)
		case *Opaque, CastPtr:
			return eFalse
		case ElemPtr:
			return g.elemEq(b, a)
		case UPtr:
			return g.equals(a, b.p)
		}
	case ElemPtr:
		switch b := y.(type) {
		case *Value, ElemPtr:
			return g.elemEq(a, b)
		case *Opaque, CastPtr:
			return eFalse
		case UPtr:
			return g.equals(a, b.p)
		}
	case UPtr:
		if b, ok := y.(UPtr); ok {
			return g.equals(a.p, b.p)
		}
		return g.equals(a.p, y)
	case *Opaque:
		if b, ok := y.(*Opaque); ok {
			return mkBool(a == b)
		}
		return eFalse
	case CastPtr:
		if b, ok := y.(CastPtr); ok {
			return g.equals(a.p, b.p)
		}
		return g.equals(a.p, y)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			break
		}
		if a.t == nil || b.t == nil {
			return mkBool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return eFalse
		}
		if !types.Comparable(a.t) {
			g.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return g.equals(a.v, b.v)
	case Struct:
		b, ok := y.(Struct)
		if !ok {
			break
		}
		r := eTrue
		for i := range a {
			r = ctx.And(r, g.equals(a[i], b[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Array:
		b, ok := y.(Array)
		if !ok {
			break
		}
		r := eTrue
		for i := range a {
			r = ctx.And(r, g.equals(a[i], b[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Slice:
		if b, ok := y.(Slice); ok {
			if a == nil {
				return mkBool(b == nil)
			}
			if b == nil {
				return eFalse
			}
		}
	case *Map:
		if b, ok := y.(*Map); ok {
			return mkBool(a == b)
		}
	case *Chan:
		if b, ok := y.(*Chan); ok {
			return mkBool(a == b)
		}
	case *ssa.Function:
		if a == nil {
			return mkBool(isNilFunc(y))
		}
		if isNilFunc(y) {
			return eFalse
		}
	case *Closure, *Native, *ssa.Builtin:
		if isNilFunc(y) {
			return eFalse
		}
	}
	if p, ok := x.(Poison); ok {
		badValue(p, "equals")
	}
	badValue(y, fmt.Sprintf("equals(%T,%T)", x, y))
	return nil
}

func (g *G) unop(in *ssa.UnOp, x Value) Value {
	ctx := g.m.ctx
	switch in.Op {
	case token.MUL:
		return g.load(x)
	case token.NOT:
		if e, ok := x.(*Expr); ok {
			return ctx.Not(e)
		}
	case token.SUB:
		switch a := x.(type) {
		case *Expr:
			return ctx.Bin(opSub, mkConst(0, a.w), a)
		case float64:
			return -a
		case complex128:
			return -a
		}
	case token.XOR:
		if a, ok := x.(*Expr); ok {
			return ctx.Bin(opBXor, a, mkConst(mask(a.w), a.w))
		}
	case token.ARROW:
		v, ok := g.chanRecv(x, in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, mkBool(ok)}
		}
		return v
	}
	badValue(x, "unop "+in.Op.String())
	return nil
}

func (g *G) convInt(e *Expr, fromSigned bool, w uint8) *Expr {
	ctx := g.m.ctx
	if e.w == w {
		return e
	}
	if e.w > w {
		return ctx.Trunc(e, w)
	}
	if fromSigned {
		return ctx.SExt(e, w)
	}
	return ctx.ZExt(e, w)
}

func (g *G) convert(from, to types.Type, v Value) Value {
	if p, ok := v.(Poison); ok {
		badValue(p, "convert")
	}
	uf, ut := from.Underlying(), to.Underlying()
	// unsafe.Pointer conversions
	if bt, ok := ut.(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
		if pt, ok := uf.(*types.Pointer); ok {
			if isNilPtr(v) {
				return v
			}
			return UPtr{v, pt.Elem()}
		}
		if b, ok := uf.(*types.Basic); ok && b.Kind() == types.Uintptr {
			if e, ok := v.(*Expr); ok && e.isConst() && e.c == 0 {
				return (*Value)(nil)
			}
			if d, ok := v.(BytesPtr); ok {
				return UPtr{d, types.Typ[types.Byte]}
			}
			panic(unsupported("uintptr to unsafe.Pointer"))
		}
		return v
	}
	if bf, ok := uf.(*types.Basic); ok && bf.Kind() == types.UnsafePointer {
		if pt, ok := ut.(*types.Pointer); ok {
			switch u := v.(type) {
			case UPtr:
				if types.Identical(u.elem.Underlying(), pt.Elem().Underlying()) {
					return u.p
				}
				return CastPtr{u.p, u.elem, pt.Elem()}
			}
			return v
		}
		if b, ok := ut.(*types.Basic); ok && b.Kind() == types.Uintptr {
			if isNilPtr(v) {
				return mkConst(0, 64)
			}
			if u, ok := v.(UPtr); ok {
				if d, ok := u.p.(BytesPtr); ok {
					return d
				}
			}
			panic(unsupported("unsafe.Pointer to uintptr"))
		}
	}
	switch t := ut.(type) {
	case *types.Basic:
		if w, _, ok := intWidth(t); ok && t.Info()&types.IsInteger != 0 {
			switch x := v.(type) {
			case *Expr:
				_, sg, _ := intWidth(from)
				return g.convInt(x, sg, w)
			case float64:
				if t.Info()&types.IsUnsigned != 0 && x >= math.MaxInt64 {
					return mkConst(uint64(x), w)
				}
				return mkConst(uint64(int64(x)), w)
			}
		}
		if t.Info()&types.IsFloat != 0 {
			switch x := v.(type) {
			case *Expr:
				if !x.isConst() {
					x = mkConst(g.concretize(x), x.w)
				}
				_, sg, _ := intWidth(from)
				var f float64
				if sg {
					f = float64(sext64(x.c, x.w))
				} else {
					f = float64(x.c)
				}
				if t.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return f
			case float64:
				if t.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			}
		}
		if t.Info()&types.IsComplex != 0 {
			return v
		}
		if t.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case string, *SymStr:
				return x
			case *Expr: // rune to string
				if !x.isConst() {
					return g.runeToStr(x)
				}
				return string(rune(int32(sext64(x.c, x.w))))
			case Slice:
				et := uf.(*types.Slice).Elem()
				w, _, _ := intWidth(et)
				if w == 8 {
					b := make([]*Expr, len(x))
					for i := range x {
						e, ok := x[i].(*Expr)
						if !ok {
							badValue(x[i], "string(bytes)")
						}
						if g.m.path.raceOn {
							g.raceRead(&x[i])
						}
						b[i] = e
					}
					return mkStr(b)
				}
				var r Value = ""
				for i := range x {
					e := x[i].(*Expr)
					if e.isConst() {
						r = strConcat(r, string(rune(int32(e.c))))
					} else {
						r = strConcat(r, g.runeToStr(e))
					}
				}
				return r
			}
		}
	case *types.Slice:
		switch x := v.(type) {
		case string, *SymStr:
			w, _, _ := intWidth(t.Elem())
			if w == 8 {
				b := strBytes(x)
				s := make(Slice, len(b))
				for i := range b {
					s[i] = b[i]
				}
				return s
			}
			// []rune
			var s Slice
			it := g.rangeIter(x).(*strIter)
			for {
				t := g.strNext(it)
				if t[0].(*Expr).isFalse() {
					break
				}
				s = append(s, t[2])
			}
			if s == nil {
				s = Slice{}
			}
			return s
		case Slice:
			return x
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Struct, *types.Interface, *types.Signature, *types.Array:
		return v
	}
	panic(unsupported(fmt.Sprintf("convert %s -> %s (%T)", from, to, v)))
}

// runeToStr encodes a symbolic rune, forking on its encoded length.
func (g *G) runeToStr(r *Expr) Value {
	ctx := g.m.ctx
	if r.w < 32 {
		r = ctx.ZExt(r, 32)
	} else if r.w > 32 {
		if g.branch(ctx.ULt(mkConst(0x10FFFF, r.w), r)) {
			return "\uFFFD"
		}
		r = ctx.Trunc(r, 32)
	}
	c := func(v uint64) *Expr { return mkConst(v, 32) }
	if g.branch(ctx.ULt(r, c(0x80))) {
		return mkStr([]*Expr{ctx.Trunc(r, 8)})
	}
	cont := func(sh uint64) *Expr {
		return ctx.Trunc(ctx.Bin(opBOr, c(0x80), ctx.Bin(opBAnd, ctx.Bin(opLShr, r, c(sh)), c(0x3f))), 8)
	}
	if g.branch(ctx.ULt(r, c(0x800))) {
		return mkStr([]*Expr{ctx.Trunc(ctx.Bin(opBOr, c(0xC0), ctx.Bin(opLShr, r, c(6))), 8), cont(0)})
	}
	bad := ctx.Or(ctx.ULt(c(0x10FFFF), r), ctx.And(ctx.ULe(c(0xD800), r), ctx.ULe(r, c(0xDFFF))))
	if g.branch(bad) {
		return "\uFFFD"
	}
	if g.branch(ctx.ULt(r, c(0x10000))) {
		return mkStr([]*Expr{ctx.Trunc(ctx.Bin(opBOr, c(0xE0), ctx.Bin(opLShr, r, c(12))), 8), cont(6), cont(0)})
	}
	return mkStr([]*Expr{ctx.Trunc(ctx.Bin(opBOr, c(0xF0), ctx.Bin(opLShr, r, c(18))), 8), cont(12), cont(6), cont(0)})
}

// ---- unsafe casts that the code under test and the standard library use ----

func (g *G) castLoad(p CastPtr) Value {
	ft, tt := p.from.Underlying(), p.to.Underlying()
	if b, ok := tt.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if s, ok := ft.(*types.Slice); ok {
			return g.convert(s, tt, g.load(p.p))
		}
	}
	if s, ok := tt.(*types.Slice); ok {
		if w, _, ok := intWidth(s.Elem()); ok && w == 8 {
			// *(*[]byte)(unsafe.Pointer(&string)) or a look-alike header struct
			if b, ok := ft.(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return g.convert(ft, tt, g.load(p.p))
			}
			if st, ok := ft.(*types.Struct); ok && st.NumFields() >= 1 {
				v := g.load(p.p).(Struct)
				if isStr(v[0]) {
					return g.convert(types.Typ[types.String], tt, v[0])
				}
			}
		}
	}
	panic(unsupported(fmt.Sprintf("unsafe cast load *%s as *%s", p.from, p.to)))
}

func (g *G) castStore(p CastPtr, v Value) {
	panic(unsupported(fmt.Sprintf("unsafe cast store *%s as *%s", p.from, p.to)))
}

// BytesPtr is the address of the bytes of a string or slice, as a pointer or a uintptr.
type BytesPtr struct{ s Slice }

// hdrField points at a field of a string or slice seen as reflect.StringHeader or reflect.SliceHeader.
type hdrField struct {
	p    CastPtr
	name string
}

func (g *G) castField(p CastPtr, i int) Value {
	ft := p.from.Underlying()
	b, isS := ft.(*types.Basic)
	isS = isS && b.Info()&types.IsString != 0
	sl, isL := ft.(*types.Slice)
	if isL {
		w, _, ok := intWidth(sl.Elem())
		isL = ok && w == 8
	}
	if st, ok := p.to.Underlying().(*types.Struct); ok && (isS || isL) {
		switch n := st.Field(i).Name(); n {
		case "Data", "Len", "Cap":
			return hdrField{p, n}
		}
	}
	panic(unsupported(fmt.Sprintf("unsafe cast field *%s as *%s", p.from, p.to)))
}

func (g *G) hdrLoad(h hdrField) Value {
	v := g.load(h.p.p)
	if s, ok := v.(Slice); ok {
		switch h.name {
		case "Data":
			return BytesPtr{s}
		case "Len":
			return i64(int64(len(s)))
		}
		return i64(int64(cap(s)))
	}
	if h.name == "Data" {
		return BytesPtr{sliceOfBytes(strBytes(v))}
	}
	return i64(int64(strLen(v)))
}

// ---- indexing and slicing ----

// checkIndex returns the index when constant (in range), or the symbolic expr assumed in range.
func (g *G) checkIndex(iv Value, n int) (int, *Expr) {
	e, ok := iv.(*Expr)
	if !ok {
		badValue(iv, "index")
	}
	if e.isConst() {
		i := sext64(e.c, e.w)
		// unsigned widths below 64 never look negative
		if e.w < 64 {
			i = int64(e.c)
			if i >= int64(n) {
				// signed narrow index could be negative; both are out of range anyway
				g.rtPanic("index out of range")
			}
			return int(i), nil
		}
		if i < 0 || i >= int64(n) {
			g.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	ctx := g.m.ctx
	var in *Expr
	if e.w < 64 && uint64(n) > mask(e.w) {
		in = eTrue
	} else {
		in = ctx.ULt(e, mkConst(uint64(n), e.w))
	}
	if !g.branch(in) {
		g.rtPanic("index out of range")
	}
	if n == 1 {
		return 0, nil
	}
	return -1, e
}

func (g *G) indexAddr(x, iv Value) Value {
	var s []Value
	switch a := x.(type) {
	case Slice:
		s = a
	case *Value:
		if a == nil {
			g.rtPanic("invalid memory address or nil pointer dereference")
		}
		arr, ok := (*a).(Array)
		if !ok {
			badValue(*a, "indexaddr")
		}
		s = arr
	default:
		badValue(x, "indexaddr")
	}
	i, e := g.checkIndex(iv, len(s))
	if e != nil {
		return ElemPtr{s, e}
	}
	return &s[i]
}

func (g *G) index(x, iv Value) Value {
	switch a := x.(type) {
	case Array:
		i, e := g.checkIndex(iv, len(a))
		if e != nil {
			return g.load(ElemPtr{a, e})
		}
		return copyVal(a[i])
	case string, *SymStr:
		n := strLen(x)
		i, e := g.checkIndex(iv, n)
		if e == nil {
			return strByte(x, i)
		}
		b := strBytes(x)
		s := make([]Value, n)
		for k := range s {
			s[k] = b[k]
		}
		v, ok := g.symLoad(ElemPtr{s, e})
		if !ok {
			panic(unsupported("symbolic string index"))
		}
		return v
	}
	badValue(x, "index")
	return nil
}

func (g *G) concInt(v Value, def int) int {
	if v == nil {
		return def
	}
	e, ok := v.(*Expr)
	if !ok {
		badValue(v, "slice bound")
	}
	if e.isConst() {
		return int(sext64(e.c, e.w))
	}
	w := e.w
	u := g.concretize(e)
	return int(sext64(u, w))
}

func (g *G) sliceOp(in *ssa.Slice, x, lo, hi, mx Value) Value {
	var l, h, c int
	var s []Value
	isString := false
	switch a := x.(type) {
	case string, *SymStr:
		isString = true
		c = strLen(x)
		h = c
	case Slice:
		s = a
		c = cap(a)
		h = len(a)
	case *Value:
		if a == nil {
			g.rtPanic("invalid memory address or nil pointer dereference")
		}
		arr, ok := (*a).(Array)
		if !ok {
			badValue(*a, "slice")
		}
		s = arr
		c = len(arr)
		h = c
	case CastPtr:
		d, ok := a.p.(BytesPtr)
		at, ok2 := a.to.Underlying().(*types.Array)
		if w, _, ok3 := intWidth(at.Elem()); !ok || !ok2 || !ok3 || w != 8 {
			panic(unsupported("slice of an unsafe cast"))
		}
		// only the bytes that really are there can be used
		s, c, h = d.s, cap(d.s), int(at.Len())
		if hi != nil {
			if n := g.concInt(hi, 0); n > c && int64(n) <= at.Len() {
				panic(unsupported("unsafe slice out of bounds"))
			}
		}
	default:
		badValue(x, "slice")
	}
	if !isString {
		s = s[:c]
	}
	l = g.concInt(lo, 0)
	h = g.concInt(hi, h)
	m := g.concInt(mx, c)
	if l < 0 || h < l || h > c || m < h || m > c {
		g.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, c))
	}
	if isString {
		return strSlice(x, l, h)
	}
	if sl, ok := x.(Slice); ok && sl == nil {
		return Slice(nil)
	}
	return Slice(s[l:h:m])
}

// ---- builtins ----

func (g *G) builtin(name string, args []Value, in ssa.Instruction) Value {
	var cc *ssa.CallCommon
	if ci, ok := in.(ssa.CallInstruction); ok && ci != nil {
		cc = ci.Common()
	}
	return g.builtinCC(name, args, cc)
}

func (g *G) builtinCC(name string, args []Value, cc *ssa.CallCommon) Value {
	for _, a := range args {
		if p, ok := a.(Poison); ok {
			badValue(p, "builtin "+name)
		}
	}
	switch name {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return mkConst(uint64(strLen(x)), 64)
		case Slice:
			return mkConst(uint64(len(x)), 64)
		case Array:
			return mkConst(uint64(len(x)), 64)
		case *Map:
			if x == nil {
				return mkConst(0, 64)
			}
			if g.m.path.raceOn {
				g.raceRead(&x.race)
			}
			return mkConst(uint64(x.n), 64)
		case *Chan:
			if x == nil {
				return mkConst(0, 64)
			}
			return mkConst(uint64(len(x.buf)), 64)
		case *Value:
			return mkConst(uint64(len((*x).(Array))), 64)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return mkConst(uint64(cap(x)), 64)
		case Array:
			return mkConst(uint64(len(x)), 64)
		case *Chan:
			if x == nil {
				return mkConst(0, 64)
			}
			return mkConst(uint64(x.cap), 64)
		case *Value:
			return mkConst(uint64(len((*x).(Array))), 64)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s, ok := args[0].(Slice)
		if !ok {
			badValue(args[0], "append")
		}
		var add []Value
		switch y := args[1].(type) {
		case string, *SymStr:
			b := strBytes(y)
			add = make([]Value, len(b))
			for i := range b {
				add[i] = b[i]
			}
		case Slice:
			add = y
		default:
			badValue(args[1], "append")
		}
		if len(add) == 0 {
			return s
		}
		race := g.m.path.raceOn
		if race {
			for i := range add {
				g.raceRead(&add[i])
			}
		}
		n := len(s) + len(add)
		if n <= cap(s) {
			r := s[:n]
			tmp := make([]Value, len(add))
			for i := range add {
				tmp[i] = copyVal(add[i])
			}
			for i := range tmp {
				g.storeCell(&r[len(s)+i], tmp[i])
			}
			return r
		}
		nc := growCap(cap(s), n)
		r := make(Slice, n, nc)
		for i := range s {
			if race {
				g.raceRead(&s[i])
			}
			r[i] = copyVal(s[i])
		}
		for i := range add {
			r[len(s)+i] = copyVal(add[i])
		}
		if nc > n && cc != nil {
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			fillZero(r[n:nc], et)
		} else if nc > n {
			r = r[:n:n]
		}
		return r
	case "copy":
		dst, ok := args[0].(Slice)
		if !ok {
			badValue(args[0], "copy")
		}
		var src []Value
		switch y := args[1].(type) {
		case string, *SymStr:
			b := strBytes(y)
			src = make([]Value, len(b))
			for i := range b {
				src[i] = b[i]
			}
		case Slice:
			src = y
		default:
			badValue(args[1], "copy")
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			if g.m.path.raceOn {
				g.raceRead(&src[i])
			}
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			g.storeCell(&dst[i], tmp[i])
		}
		return mkConst(uint64(n), 64)
	case "delete":
		mp := args[0].(*Map)
		if mp != nil {
			g.mapDelete(mp, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				g.mapClear(x)
			}
		case Slice:
			if cc != nil {
				et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
				for i := range x {
					g.storeCell(&x[i], zero(et))
				}
			}
		}
		return nil
	case "close":
		g.chanClose(args[0].(*Chan))
		return nil
	case "recover":
		return g.doRecover()
	case "panic":
		panic(targetPanic{args[0].(Iface), g.m.srcLoc()})
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Expr:
				y := a.(*Expr)
				_, signed, _ := intWidth(cc.Args[0].Type())
				var lt *Expr
				if signed {
					lt = g.m.ctx.SLt(x, y)
				} else {
					lt = g.m.ctx.ULt(x, y)
				}
				if name == "min" {
					r = g.m.ctx.Ite(lt, x, y)
				} else {
					r = g.m.ctx.Ite(lt, y, x)
				}
			case float64:
				if name == "min" {
					r = math.Min(x, a.(float64))
				} else {
					r = math.Max(x, a.(float64))
				}
			default:
				panic(unsupported("min/max of strings"))
			}
		}
		return r
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			g.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := g.concInt(args[1], 0)
		if n == 0 {
			return ""
		}
		if d, ok := args[0].(BytesPtr); ok {
			if n > cap(d.s) {
				panic(unsupported("unsafe string out of bounds"))
			}
			return mkStr(bytesOfSlice(d.s[:n]))
		}
		p := ptrOf(args[0])
		cells := unsafe.Slice(p, n)
		b := make([]*Expr, n)
		for i := range cells {
			e, ok := cells[i].(*Expr)
			if !ok {
				badValue(cells[i], "unsafe.String")
			}
			b[i] = e
		}
		return mkStr(b)
	case "StringData":
		b := strBytes(args[0])
		if len(b) == 0 {
			return (*Value)(nil)
		}
		s := make([]Value, len(b))
		for i := range b {
			s[i] = b[i]
		}
		return &s[0]
	case "SliceData":
		s := args[0].(Slice)
		if s == nil {
			return (*Value)(nil)
		}
		if cap(s) == 0 {
			return new(Value)
		}
		return &s[:1][0]
	case "Slice": // unsafe.Slice
		n := g.concInt(args[1], 0)
		if d, ok := args[0].(BytesPtr); ok {
			if n > cap(d.s) {
				panic(unsupported("unsafe slice out of bounds"))
			}
			return d.s[:n]
		}
		p := ptrOf(args[0])
		if p == nil {
			return Slice(nil)
		}
		return Slice(unsafe.Slice(p, n))
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	}
	panic(unsupported("builtin " + name))
}

func ptrOf(v Value) *Value {
	switch p := v.(type) {
	case *Value:
		return p
	case UPtr:
		return ptrOf(p.p)
	}
	panic(unsupported(fmt.Sprintf("pointer %T", v)))
}

func growCap(old, need int) int {
	nc := old * 2
	if old >= 256 {
		nc = old + old/4
	}
	if nc < need {
		nc = need
	}
	if nc < 4 && nc > 1 {
		nc = 4
	}
	return nc
}

// ---- type assertions ----

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	k := [2]types.Type{t, it}
	if v, ok := m.asgCache[k]; ok {
		return v
	}
	v := types.Implements(t, it)
	m.asgCache[k] = v
	return v
}

func (g *G) typeAssert(in *ssa.TypeAssert, v Iface) Value {
	m := g.m
	ok := false
	var res Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if v.t != nil && m.implements(v.t, it) {
			ok = true
			res = v
		}
	} else if v.t != nil && types.Identical(v.t, in.AssertedType) {
		ok = true
		res = copyVal(v.v)
	}
	if in.CommaOk {
		if !ok {
			res = zero(in.AssertedType)
		}
		return Tuple{res, mkBool(ok)}
	}
	if !ok {
		have := "nil"
		if v.t != nil {
			have = v.t.String()
		}
		g.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", have, in.AssertedType))
	}
	return res
}

// ---- maps ----

func (g *G) mapFind(mp *Map, k Value) int {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		g.rtPanic("hash of unhashable type " + i.t.String())
	}
	if p, ok := k.(Poison); ok {
		badValue(p, "map key")
	}
	ck, conc := concreteKey(k)
	if conc && !mp.symK {
		if i, ok := mp.idx[ck]; ok {
			return i
		}
		return -1
	}
	for i, e := range mp.ents {
		if e.deleted {
			continue
		}
		if g.branch(g.equals(*e.k, k)) {
			return i
		}
	}
	return -1
}

func (g *G) mapGet(mp *Map, k Value) (Value, bool) {
	if mp == nil {
		return nil, false
	}
	if g.m.path.raceOn {
		g.raceRead(&mp.race)
	}
	i := g.mapFind(mp, k)
	if i < 0 {
		return nil, false
	}
	return copyVal(*mp.ents[i].v), true
}

func (g *G) mapSet(mp *Map, k, v Value) {
	if g.m.path.raceOn {
		g.raceWrite(&mp.race)
	}
	i := g.mapFind(mp, k)
	if i >= 0 {
		e := mp.ents[i]
		old := e.v
		nv := new(Value)
		*nv = copyVal(v)
		e.v = nv
		g.m.jundo(func() { e.v = old })
		return
	}
	kc, vc := new(Value), new(Value)
	*kc, *vc = copyVal(k), copyVal(v)
	oldSym, oldN, oldLen := mp.symK, mp.n, len(mp.ents)
	mp.ents = append(mp.ents, &mapEntry{k: kc, v: vc})
	mp.n++
	ck, conc := concreteKey(k)
	if conc {
		prev, had := mp.idx[ck]
		mp.idx[ck] = oldLen
		g.m.jundo(func() {
			if had {
				mp.idx[ck] = prev
			} else {
				delete(mp.idx, ck)
			}
			mp.ents = mp.ents[:oldLen]
			mp.n = oldN
			mp.symK = oldSym
		})
	} else {
		mp.symK = true
		g.m.jundo(func() {
			mp.ents = mp.ents[:oldLen]
			mp.n = oldN
			mp.symK = oldSym
		})
	}
}

func (g *G) mapDelete(mp *Map, k Value) {
	if g.m.path.raceOn {
		g.raceWrite(&mp.race)
	}
	i := g.mapFind(mp, k)
	if i < 0 {
		return
	}
	e := mp.ents[i]
	e.deleted = true
	mp.n--
	ck, conc := concreteKey(*e.k)
	if conc {
		delete(mp.idx, ck)
	}
	g.m.jundo(func() {
		e.deleted = false
		mp.n++
		if conc {
			mp.idx[ck] = i
		}
	})
}

func (g *G) mapClear(mp *Map) {
	if g.m.path.raceOn {
		g.raceWrite(&mp.race)
	}
	ents, idx, n, symK := mp.ents, mp.idx, mp.n, mp.symK
	mp.ents, mp.idx, mp.n, mp.symK = nil, map[interface{}]int{}, 0, false
	// running iterators hold the old entries and must see them as gone
	var marked []*mapEntry
	for _, e := range ents {
		if !e.deleted {
			e.deleted = true
			marked = append(marked, e)
		}
	}
	g.m.jundo(func() {
		mp.ents, mp.idx, mp.n, mp.symK = ents, idx, n, symK
		for _, e := range marked {
			e.deleted = false
		}
	})
}

// ---- iteration ----

type mapIter struct {
	mp   *Map
	todo []*mapEntry
	init bool
}

type strIter struct {
	s   Value
	pos int
}

func (g *G) rangeIter(x Value) Value {
	switch a := x.(type) {
	case *Map:
		it := &mapIter{mp: a}
		if a != nil {
			if g.m.path.raceOn {
				g.raceRead(&a.race)
			}
			for _, e := range a.ents {
				if !e.deleted {
					it.todo = append(it.todo, e)
				}
			}
		}
		return it
	case string, *SymStr:
		return &strIter{s: x}
	}
	badValue(x, "range")
	return nil
}

func (g *G) mapNext(it *mapIter, in *ssa.Next) Value {
	if it.mp != nil && g.m.path.raceOn {
		g.raceRead(&it.mp.race)
	}
	// drop deleted entries
	live := it.todo[:0:0]
	for _, e := range it.todo {
		if !e.deleted {
			live = append(live, e)
		}
	}
	it.todo = live
	if len(live) == 0 {
		tt := in.Type().(*types.Tuple)
		return Tuple{eFalse, zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type())}
	}
	i := 0
	if g.m.path.mapOrder && len(live) > 1 {
		i = g.choose(len(live))
	}
	e := live[i]
	it.todo = append(append([]*mapEntry{}, live[:i]...), live[i+1:]...)
	return Tuple{eTrue, copyVal(*e.k), copyVal(*e.v)}
}

func zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

func (g *G) strNext(it *strIter) Tuple {
	n := strLen(it.s)
	if it.pos >= n {
		return Tuple{eFalse, mkConst(0, 64), mkConst(0, 32)}
	}
	pos := it.pos
	if s, ok := it.s.(string); ok {
		for _, r := range s[pos:] {
			sz := 1
			if r >= 0x80 {
				_, sz = decodeRune(s[pos:])
			}
			it.pos += sz
			return Tuple{eTrue, mkConst(uint64(pos), 64), mkConst(uint64(uint32(r)), 32)}
		}
	}
	b := strByte(it.s, pos)
	ctx := g.m.ctx
	if g.branch(ctx.ULt(b, mkConst(0x80, 8))) {
		it.pos++
		return Tuple{eTrue, mkConst(uint64(pos), 64), ctx.ZExt(b, 32)}
	}
	fn := g.m.P.pkgs["unicode/utf8"].Func("DecodeRuneInString")
	r := g.m.callSSA(g, fn, []Value{strSlice(it.s, pos, n)}, nil).(Tuple)
	sz := int(g.concretize(r[1].(*Expr)))
	it.pos += sz
	return Tuple{eTrue, mkConst(uint64(pos), 64), r[0]}
}

func decodeRune(s string) (rune, int) {
	first := true
	end := len(s)
	var r0 rune
	for i, r := range s {
		if first {
			r0 = r
			first = false
			continue
		}
		end = i
		break
	}
	return r0, end
}

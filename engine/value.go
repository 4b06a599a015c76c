package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value representations:
//
//	bool, intN, uintN, uintptr -> *Expr
//	float32/64                 -> float64
//	complex                    -> complex128
//	string                     -> string | *SymStr
//	pointer                    -> *Value | ElemPtr | CastPtr | native opaque pointers (*Opaque)
//	unsafe.Pointer             -> same as pointer values, or nil *Value
//	struct                     -> Struct
//	array                      -> Array
//	slice                      -> Slice
//	map                        -> *Map (nil *Map when nil)
//	chan                       -> *Chan
//	interface                  -> Iface
//	func                       -> *ssa.Function | *Closure | *ssa.Builtin | *Native (nil *ssa.Function when nil)
//	tuple                      -> Tuple
type Value interface{}

type SymStr struct{ b []*Expr }

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

// Native is a function value implemented by the engine.
type Native struct {
	name string
	f    func(g *G, args []Value) Value
}

// Opaque wraps a native object (regexp, template...) behind a pointer type.
type Opaque struct {
	kind string
	v    interface{}
	id   int
}

// ElemPtr points at an element of an array/slice chosen by a symbolic, in-range index.
type ElemPtr struct {
	s   []Value
	idx *Expr
}

// CastPtr is the result of an unsafe pointer cast.
type CastPtr struct {
	p        Value
	from, to types.Type // pointee types
}

// Poison marks a value the engine could not compute during package initialisation.
type Poison struct{ why string }

type mapEntry struct {
	k, v    *Value // v is a cell
	deleted bool
}

type Map struct {
	ents []*mapEntry
	idx  map[interface{}]int
	n    int
	symK bool
	race Value // race-detection cell
	kt   types.Type
	id   int
}

func (g *G) newMap(kt types.Type) *Map {
	g.m.mapSeq++
	return &Map{idx: map[interface{}]int{}, kt: kt, id: g.m.mapSeq}
}

func isSymStr(v Value) bool { _, ok := v.(*SymStr); return ok }

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(unsupported(fmt.Sprintf("strLen of %T", v)))
}

func strByte(v Value, i int) *Expr {
	switch s := v.(type) {
	case string:
		return smallConst[8][s[i]]
	case *SymStr:
		return s.b[i]
	}
	panic(unsupported(fmt.Sprintf("strByte of %T", v)))
}

func strBytes(v Value) []*Expr {
	switch s := v.(type) {
	case string:
		r := make([]*Expr, len(s))
		for i := range r {
			r[i] = smallConst[8][s[i]]
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(unsupported(fmt.Sprintf("strBytes of %T", v)))
}

// mkStr builds a string value, concrete when every byte is.
func mkStr(b []*Expr) Value {
	for _, e := range b {
		if !e.isConst() {
			return &SymStr{b}
		}
	}
	r := make([]byte, len(b))
	for i, e := range b {
		r[i] = byte(e.c)
	}
	return string(r)
}

func strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]*Expr, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return mkStr(r)
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	panic(unsupported("strSlice"))
}

func intWidth(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(u); ok {
			return mkConst(0, w)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return ""
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return complex128(0)
		case types.UnsafePointer:
			return (*Value)(nil)
		case types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if len(a) > 0 {
			z := zero(u.Elem())
			for i := range a {
				if i == 0 {
					a[i] = z
				} else {
					a[i] = copyVal(z)
				}
			}
		}
		return a
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	case *types.TypeParam:
		panic(unsupported("zero of type parameter"))
	}
	panic(unsupported(fmt.Sprintf("zero of %s", t)))
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			switch x[i].(type) {
			case Struct, Array:
				r[i] = copyVal(x[i])
			default:
				r[i] = x[i]
			}
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			switch x[i].(type) {
			case Struct, Array:
				r[i] = copyVal(x[i])
			default:
				r[i] = x[i]
			}
		}
		return r
	}
	return v
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		if _, ok := c.Type().(*types.TypeParam); ok {
			return Poison{"const of type param"}
		}
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		if b.Info()&types.IsBoolean != 0 {
			return mkBool(constant.BoolVal(c.Value))
		}
		if b.Info()&types.IsString != 0 {
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
		if w, signed, ok := intWidth(b); ok {
			if signed {
				return mkConst(uint64(c.Int64()), w)
			}
			return mkConst(c.Uint64(), w)
		}
		if b.Info()&types.IsFloat != 0 {
			return c.Float64()
		}
		if b.Info()&types.IsComplex != 0 {
			return c.Complex128()
		}
	}
	panic(unsupported(fmt.Sprintf("constVal %s", c)))
}

func isNilPtr(v Value) bool {
	p, ok := v.(*Value)
	return ok && p == nil
}

func isNilFunc(v Value) bool {
	switch f := v.(type) {
	case *ssa.Function:
		return f == nil
	case nil:
		return true
	}
	return false
}

func ifaceIsNil(i Iface) bool { return i.t == nil }

// concreteKey gives a Go-comparable key for fully concrete simple keys.
func concreteKey(v Value) (interface{}, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case *Expr:
		if x.isConst() {
			return [2]uint64{uint64(x.w), x.c}, true
		}
		return nil, false
	case *Value:
		return x, true
	case float64:
		return x, x == x
	case *Chan:
		return x, true
	case *Opaque:
		return x, true
	case Iface:
		if x.t == nil {
			return "\x00nil", true
		}
		k, ok := concreteKey(x.v)
		if !ok {
			return nil, false
		}
		if p, isp := x.v.(*Value); isp {
			return p, true
		}
		return [2]interface{}{typeKey(x.t), k}, true
	case Struct:
		var sb strings.Builder
		for _, f := range x {
			k, ok := concreteKey(f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return "\x01" + sb.String(), true
	case Array:
		return concreteKey(Struct(x))
	}
	return nil, false
}

func typeKey(t types.Type) string {
	return types.TypeString(t, nil)
}

func showVal(v Value) string {
	switch x := v.(type) {
	case *Expr:
		return showExpr(x)
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		return fmt.Sprintf("symstr[%d]", len(x.b))
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", x.t, showVal(x.v))
	}
	return fmt.Sprintf("%T", v)
}

func showExpr(e *Expr) string {
	if e == nil {
		return ""
	}
	switch e.op {
	case opConst:
		return fmt.Sprintf("%d", e.c)
	case opVar:
		return e.name
	}
	return fmt.Sprintf("(%s %s %s %s)", opNames[e.op], showExpr(e.a), showExpr(e.b), showExpr(e.d))
}

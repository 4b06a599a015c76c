package main

// Hash-consed bit-vector / boolean terms. Width 0 is the boolean sort.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	opConst Op = iota
	opVar
	opNot // bool
	opAnd // bool
	opOr  // bool
	opEq  // any sort -> bool
	opIte // cond, then, else
	opAdd
	opSub
	opMul
	opUDiv
	opSDiv
	opURem
	opSRem
	opBAnd
	opBOr
	opBXor
	opShl
	opLShr
	opAShr
	opULt
	opULe
	opSLt
	opSLe
	opZExt
	opSExt
	opTrunc
)

type Expr struct {
	op      Op
	w       uint8
	c       uint64 // constant value, or variable number
	a, b, d *Expr
	name    string
	id      uint32
	// model evaluation memo
	evEpoch uint64
	evVal   uint64
	// solver emission
	emitted uint32
	sup     *Expr // nil: no variable; multi; or the only (8-bit) variable
}

type exprKey struct {
	op      Op
	w       uint8
	c       uint64
	a, b, d *Expr
}

// Ctx owns the hash-consing table; one per worker.
type Ctx struct {
	tab      map[exprKey]*Expr
	vars     map[string]*Expr
	next     uint32
	epoch    uint64
	truths   map[*Expr]byteSet
	supports map[*Expr][]*Expr
}

func newCtx() *Ctx {
	return &Ctx{tab: map[exprKey]*Expr{}, vars: map[string]*Expr{}, next: 1, truths: map[*Expr]byteSet{}, supports: map[*Expr][]*Expr{}}
}

var (
	eTrue  = &Expr{op: opConst, w: 0, c: 1}
	eFalse = &Expr{op: opConst, w: 0, c: 0}
)

var smallConst [65][256]*Expr

func init() {
	for _, w := range []int{8, 16, 32, 64} {
		for i := 0; i < 256; i++ {
			smallConst[w][i] = &Expr{op: opConst, w: uint8(w), c: uint64(i)}
		}
	}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func mkConst(v uint64, w uint8) *Expr {
	if w == 0 {
		if v != 0 {
			return eTrue
		}
		return eFalse
	}
	v &= mask(w)
	if v < 256 {
		if e := smallConst[w][v]; e != nil {
			return e
		}
	}
	return &Expr{op: opConst, w: w, c: v}
}

func mkBool(b bool) *Expr {
	if b {
		return eTrue
	}
	return eFalse
}

func (e *Expr) isConst() bool { return e.op == opConst }
func (e *Expr) isTrue() bool  { return e.op == opConst && e.w == 0 && e.c == 1 }
func (e *Expr) isFalse() bool { return e.op == opConst && e.w == 0 && e.c == 0 }

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (c *Ctx) intern(e *Expr) *Expr {
	if e != nil && e.op == opConst && e.w != 0 && e.c >= 256 {
		k := exprKey{op: opConst, w: e.w, c: e.c}
		if x, ok := c.tab[k]; ok {
			return x
		}
		c.tab[k] = e
	}
	return e
}

func (c *Ctx) mk(op Op, w uint8, cv uint64, a, b, d *Expr) *Expr {
	a, b, d = c.intern(a), c.intern(b), c.intern(d)
	k := exprKey{op, w, cv, a, b, d}
	if x, ok := c.tab[k]; ok {
		return x
	}
	e := &Expr{op: op, w: w, c: cv, a: a, b: b, d: d, id: c.next}
	e.sup = joinSup(joinSup(supOf(a), supOf(b)), supOf(d))
	c.next++
	c.tab[k] = e
	return e
}

func (c *Ctx) Var(name string, w uint8) *Expr {
	if e, ok := c.vars[name]; ok {
		if e.w != w {
			panic("variable redeclared with another width: " + name)
		}
		return e
	}
	e := &Expr{op: opVar, w: w, name: name, id: c.next}
	e.sup = multi
	if w == 8 {
		e.sup = e
	}
	c.next++
	c.vars[name] = e
	return e
}

func sameConst(a, b *Expr) bool {
	return a.op == opConst && b.op == opConst && a.w == b.w && a.c == b.c
}

func same(a, b *Expr) bool { return a == b || sameConst(a, b) }

func (c *Ctx) Not(a *Expr) *Expr {
	if a.isConst() {
		return mkBool(a.c == 0)
	}
	if a.op == opNot {
		return a.a
	}
	return c.mk(opNot, 0, 0, a, nil, nil)
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a.isFalse() || b.isFalse() {
		return eFalse
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() {
		return a
	}
	if a == b {
		return a
	}
	if (a.op == opNot && a.a == b) || (b.op == opNot && b.a == a) {
		return eFalse
	}
	return c.mk(opAnd, 0, 0, a, b, nil)
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	if a.isTrue() || b.isTrue() {
		return eTrue
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() {
		return a
	}
	if a == b {
		return a
	}
	if (a.op == opNot && a.a == b) || (b.op == opNot && b.a == a) {
		return eTrue
	}
	return c.mk(opOr, 0, 0, a, b, nil)
}

func (c *Ctx) Ite(cond, a, b *Expr) *Expr {
	if cond.isTrue() {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if same(a, b) {
		return a
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if cond.op == opNot {
		return c.Ite(cond.a, b, a)
	}
	return c.mk(opIte, a.w, 0, cond, a, b)
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return eTrue
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.c == b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.c == 1 {
				return a
			}
			return c.Not(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case opIte:
			if a.b.isConst() || a.d.isConst() {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.d, b))
			}
		case opZExt:
			if b.c > mask(a.a.w) {
				return eFalse
			}
			return c.Eq(a.a, mkConst(b.c, a.a.w))
		case opSExt:
			t := b.c & mask(a.a.w)
			if uint64(sext64(t, a.a.w))&mask(a.w) != b.c {
				return eFalse
			}
			return c.Eq(a.a, mkConst(t, a.a.w))
		case opAdd:
			if a.b.isConst() {
				return c.Eq(a.a, mkConst(b.c-a.b.c, a.w))
			}
		}
	}
	if (a.op == opZExt && b.op == opZExt || a.op == opSExt && b.op == opSExt) && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(opEq, 0, 0, a, b, nil)
}

func umaxOf(e *Expr) uint64 {
	switch e.op {
	case opConst:
		return e.c
	case opZExt:
		return umaxOf(e.a)
	case opIte:
		x, y := umaxOf(e.b), umaxOf(e.d)
		if x > y {
			return x
		}
		return y
	case opBAnd:
		x, y := umaxOf(e.a), umaxOf(e.b)
		if x < y {
			return x
		}
		return y
	case opURem:
		if e.b.isConst() && e.b.c > 0 {
			return e.b.c - 1
		}
	case opLShr:
		if e.b.isConst() && e.b.c < 64 {
			return umaxOf(e.a) >> e.b.c
		}
	}
	return mask(e.w)
}

func (c *Ctx) ULt(a, b *Expr) *Expr {
	if a == b {
		return eFalse
	}
	if a.isConst() && b.isConst() {
		return mkBool(a.c < b.c)
	}
	if b.isConst() {
		if b.c == 0 {
			return eFalse
		}
		if umaxOf(a) < b.c {
			return eTrue
		}
	}
	if a.isConst() && a.c >= umaxOf(b) {
		return eFalse
	}
	if a.op == opZExt {
		if b.isConst() && b.c <= mask(a.a.w) {
			return c.ULt(a.a, mkConst(b.c, a.a.w))
		}
		if b.op == opZExt && b.a.w == a.a.w {
			return c.ULt(a.a, b.a)
		}
	}
	if b.op == opZExt && a.isConst() && a.c <= mask(b.a.w) {
		return c.ULt(mkConst(a.c, b.a.w), b.a)
	}
	if b.isConst() && a.op == opIte && (a.b.isConst() || a.d.isConst()) || a.isConst() && b.op == opIte && (b.b.isConst() || b.d.isConst()) {
		if a.isConst() {
			return c.Ite(b.a, c.ULt(a, b.b), c.ULt(a, b.d))
		}
		return c.Ite(a.a, c.ULt(a.b, b), c.ULt(a.d, b))
	}
	return c.mk(opULt, 0, 0, a, b, nil)
}

func (c *Ctx) ULe(a, b *Expr) *Expr { return c.Not(c.ULt(b, a)) }

func (c *Ctx) SLt(a, b *Expr) *Expr {
	if a == b {
		return eFalse
	}
	if a.isConst() && b.isConst() {
		return mkBool(sext64(a.c, a.w) < sext64(b.c, b.w))
	}
	half := uint64(1) << (a.w - 1)
	// both known non-negative -> unsigned comparison
	ua, ub := umaxOf(a), umaxOf(b)
	if ua < half && ub < half {
		return c.ULt(a, b)
	}
	if a.isConst() && a.c >= half && ub < half {
		return eTrue
	}
	if b.isConst() && b.c >= half && ua < half {
		return eFalse
	}
	if b.isConst() && a.op == opIte && (a.b.isConst() || a.d.isConst()) || a.isConst() && b.op == opIte && (b.b.isConst() || b.d.isConst()) {
		if a.isConst() {
			return c.Ite(b.a, c.SLt(a, b.b), c.SLt(a, b.d))
		}
		return c.Ite(a.a, c.SLt(a.b, b), c.SLt(a.d, b))
	}
	return c.mk(opSLt, 0, 0, a, b, nil)
}

func (c *Ctx) SLe(a, b *Expr) *Expr { return c.Not(c.SLt(b, a)) }

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case opAdd:
		return (x + y) & m, true
	case opSub:
		return (x - y) & m, true
	case opMul:
		return (x * y) & m, true
	case opUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case opURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case opSDiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			if sx >= 0 {
				return m, true
			}
			return 1, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case opSRem:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case opBAnd:
		return x & y, true
	case opBOr:
		return x | y, true
	case opBXor:
		return x ^ y, true
	case opShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case opLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case opAShr:
		s := sext64(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m, true
	}
	return 0, false
}

func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.isConst() && b.isConst() {
		if v, ok := foldBin(op, w, a.c, b.c); ok {
			return mkConst(v, w)
		}
	}
	switch op {
	case opAdd, opMul, opBAnd, opBOr, opBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch op {
		case opAdd, opSub, opBOr, opBXor, opShl, opLShr, opAShr:
			if b.c == 0 {
				return a
			}
		case opMul:
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
			if bits.OnesCount64(b.c) == 1 {
				return c.Bin(opShl, a, mkConst(uint64(bits.TrailingZeros64(b.c)), w))
			}
		case opUDiv:
			if b.c == 1 {
				return a
			}
			if bits.OnesCount64(b.c) == 1 {
				return c.Bin(opLShr, a, mkConst(uint64(bits.TrailingZeros64(b.c)), w))
			}
		case opURem:
			if bits.OnesCount64(b.c) == 1 {
				return c.Bin(opBAnd, a, mkConst(b.c-1, w))
			}
			if umaxOf(a) < b.c {
				return a
			}
		case opSDiv:
			if b.c == 1 {
				return a
			}
			if umaxOf(a) < uint64(1)<<(w-1) && b.c < uint64(1)<<(w-1) && b.c > 0 {
				return c.Bin(opUDiv, a, b)
			}
		case opSRem:
			if umaxOf(a) < uint64(1)<<(w-1) && b.c < uint64(1)<<(w-1) && b.c > 0 {
				return c.Bin(opURem, a, b)
			}
		case opBAnd:
			if b.c == 0 {
				return b
			}
			if b.c == mask(w) {
				return a
			}
			if mx := umaxOf(a); b.c&(b.c+1) == 0 && mx <= b.c {
				return a
			}
		}
		if op == opBOr && b.c == mask(w) {
			return b
		}
		if op == opSub {
			return c.Bin(opAdd, a, mkConst(-b.c, w))
		}
		if op == opAdd && a.op == opAdd && a.b.isConst() {
			return c.Bin(opAdd, a.a, mkConst(a.b.c+b.c, w))
		}
		if (op == opShl || op == opLShr) && b.c >= uint64(w) {
			return mkConst(0, w)
		}
		// push constant through ite-of-constants
		if a.op == opIte && a.b.isConst() && a.d.isConst() {
			return c.Ite(a.a, c.Bin(op, a.b, b), c.Bin(op, a.d, b))
		}
	}
	if op == opSub && a == b {
		return mkConst(0, w)
	}
	if op == opBXor && a == b {
		return mkConst(0, w)
	}
	if (op == opBAnd || op == opBOr) && a == b {
		return a
	}
	return c.mk(op, w, 0, a, b, nil)
}

func (c *Ctx) ZExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkConst(a.c, w)
	}
	if a.op == opZExt {
		return c.ZExt(a.a, w)
	}
	if a.op == opIte && a.b.isConst() && a.d.isConst() {
		return c.Ite(a.a, c.ZExt(a.b, w), c.ZExt(a.d, w))
	}
	return c.mk(opZExt, w, 0, a, nil, nil)
}

func (c *Ctx) SExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkConst(uint64(sext64(a.c, a.w)), w)
	}
	if umaxOf(a) < uint64(1)<<(a.w-1) {
		return c.ZExt(a, w)
	}
	if a.op == opIte && a.b.isConst() && a.d.isConst() {
		return c.Ite(a.a, c.SExt(a.b, w), c.SExt(a.d, w))
	}
	return c.mk(opSExt, w, 0, a, nil, nil)
}

func (c *Ctx) Trunc(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkConst(a.c, w)
	}
	if a.op == opZExt || a.op == opSExt {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Trunc(a.a, w)
		}
		if a.op == opZExt {
			return c.ZExt(a.a, w)
		}
		return c.SExt(a.a, w)
	}
	if a.op == opIte && (a.b.isConst() || a.d.isConst()) {
		return c.Ite(a.a, c.Trunc(a.b, w), c.Trunc(a.d, w))
	}
	switch a.op {
	case opAdd, opSub, opMul, opBAnd, opBOr, opBXor:
		return c.Bin(a.op, c.Trunc(a.a, w), c.Trunc(a.b, w))
	}
	return c.mk(opTrunc, w, 0, a, nil, nil)
}

// Model maps variables to values; unlisted variables are 0.
type Model map[*Expr]uint64

// Eval evaluates e under the model; the memo is valid for one epoch.
func (c *Ctx) Eval(e *Expr, m Model) uint64 {
	if e.op == opConst {
		return e.c
	}
	if e.evEpoch == c.epoch {
		return e.evVal
	}
	var v uint64
	switch e.op {
	case opVar:
		v = m[e]
	case opNot:
		v = 1 - c.Eval(e.a, m)
	case opAnd:
		v = c.Eval(e.a, m)
		if v == 1 {
			v = c.Eval(e.b, m)
		}
	case opOr:
		v = c.Eval(e.a, m)
		if v == 0 {
			v = c.Eval(e.b, m)
		}
	case opEq:
		if c.Eval(e.a, m) == c.Eval(e.b, m) {
			v = 1
		}
	case opIte:
		if c.Eval(e.a, m) == 1 {
			v = c.Eval(e.b, m)
		} else {
			v = c.Eval(e.d, m)
		}
	case opULt:
		if c.Eval(e.a, m) < c.Eval(e.b, m) {
			v = 1
		}
	case opULe:
		if c.Eval(e.a, m) <= c.Eval(e.b, m) {
			v = 1
		}
	case opSLt:
		if sext64(c.Eval(e.a, m), e.a.w) < sext64(c.Eval(e.b, m), e.b.w) {
			v = 1
		}
	case opSLe:
		if sext64(c.Eval(e.a, m), e.a.w) <= sext64(c.Eval(e.b, m), e.b.w) {
			v = 1
		}
	case opZExt:
		v = c.Eval(e.a, m)
	case opSExt:
		v = uint64(sext64(c.Eval(e.a, m), e.a.w)) & mask(e.w)
	case opTrunc:
		v = c.Eval(e.a, m) & mask(e.w)
	default:
		r, ok := foldBin(e.op, e.w, c.Eval(e.a, m), c.Eval(e.b, m))
		if !ok {
			panic("eval: bad op")
		}
		v = r
	}
	e.evEpoch = c.epoch
	e.evVal = v
	return v
}

func (c *Ctx) newEpoch() { c.epoch++ }

// ---- SMT-LIB printing ----

func constSMT(v uint64, w uint8) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

func sortSMT(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func refSMT(e *Expr) string {
	switch e.op {
	case opConst:
		return constSMT(e.c, e.w)
	case opVar:
		return "|" + e.name + "|"
	}
	return fmt.Sprintf("e%d", e.id)
}

var opNames = map[Op]string{opNot: "not", opAnd: "and", opOr: "or", opEq: "=", opIte: "ite", opAdd: "bvadd", opSub: "bvsub",
	opMul: "bvmul", opUDiv: "bvudiv", opSDiv: "bvsdiv", opURem: "bvurem", opSRem: "bvsrem", opBAnd: "bvand", opBOr: "bvor",
	opBXor: "bvxor", opShl: "bvshl", opLShr: "bvlshr", opAShr: "bvashr", opULt: "bvult", opULe: "bvule", opSLt: "bvslt", opSLe: "bvsle"}

// emit appends declarations/definitions e depends on.
func emit(e *Expr, gen uint32, sb *strings.Builder, newVars *[]*Expr) {
	if e == nil || e.op == opConst || e.emitted == gen {
		return
	}
	if e.op == opVar {
		e.emitted = gen
		fmt.Fprintf(sb, "(declare-const |%s| %s)\n", e.name, sortSMT(e.w))
		*newVars = append(*newVars, e)
		return
	}
	emit(e.a, gen, sb, newVars)
	emit(e.b, gen, sb, newVars)
	emit(e.d, gen, sb, newVars)
	e.emitted = gen
	fmt.Fprintf(sb, "(define-fun e%d () %s ", e.id, sortSMT(e.w))
	switch e.op {
	case opZExt:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", e.w-e.a.w, refSMT(e.a))
	case opSExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", e.w-e.a.w, refSMT(e.a))
	case opTrunc:
		fmt.Fprintf(sb, "((_ extract %d 0) %s)", e.w-1, refSMT(e.a))
	default:
		sb.WriteByte('(')
		sb.WriteString(opNames[e.op])
		for _, x := range []*Expr{e.a, e.b, e.d} {
			if x != nil {
				sb.WriteByte(' ')
				sb.WriteString(refSMT(x))
			}
		}
		sb.WriteByte(')')
	}
	sb.WriteString(")\n")
}

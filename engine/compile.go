package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	k int8 // 0 slot, 1 constant value, 2 global, 3 absent
	i int32
	v Value
	g *ssa.Global
}

type cin struct {
	in      ssa.Instruction
	dst     int32
	a, b, c opnd
	ops     []opnd
	t       types.Type
	reg     *region
	// call
	callee  *ssa.Function
	builtin string
	blocks  *ssa.BasicBlock
}

type cphi struct {
	dst   int32
	edges []opnd
	in    *ssa.Phi
}

type cblock struct {
	b      *ssa.BasicBlock
	phis   []cphi
	code   []cin
	succ   []int
	predIx map[int]int // pred block index -> edge index (first)
}

type finfo struct {
	fn       *ssa.Function
	nslots   int
	blocks   []cblock
	params   []int32
	free     []int32
	hasDefer bool
	name     string
	intr     intrinsic
	noIntr   bool
	inRepo   bool
	harness  bool
	calls    int64
}

// region: a pure, acyclic group of blocks after an If that can be evaluated without forking.
type region struct {
	head  int
	order []int // region blocks in topological order
	exits []int // 1 or 2 exit blocks
}

func (P *Program) info(fn *ssa.Function) *finfo {
	if x, ok := P.infos.Load(fn); ok {
		return x.(*finfo)
	}
	fi := P.compile(fn, true)
	x, _ := P.infos.LoadOrStore(fn, fi)
	return x.(*finfo)
}

func originName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil && o != fn {
		return o.String()
	}
	return fn.String()
}

func (P *Program) compile(fn *ssa.Function, withIntr bool) *finfo {
	fi := &finfo{fn: fn, name: originName(fn)}
	if withIntr {
		fi.intr = lookupIntrinsic(fi.name)
	}
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		pk = o.Pkg.Pkg.Path()
	} else if p := fn.Parent(); p != nil && p.Pkg != nil {
		pk = p.Pkg.Pkg.Path()
	}
	fi.inRepo = len(pk) >= 25 && pk[:25] == "github.com/ixtendio/gofre"
	if fi.intr != nil {
		return fi
	}
	// make sure the body is built
	P.ensureBuilt(fn)
	slots := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range fn.Params {
		slots[p] = n
		fi.params = append(fi.params, n)
		n++
	}
	for _, p := range fn.FreeVars {
		slots[p] = n
		fi.free = append(fi.free, n)
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				slots[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	fi.nslots = int(n)
	op := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{k: 3}
		case *ssa.Const:
			return opnd{k: 1, v: safeConst(x)}
		case *ssa.Global:
			return opnd{k: 2, g: x}
		case *ssa.Function:
			return opnd{k: 1, v: x}
		case *ssa.Builtin:
			return opnd{k: 1, v: x}
		}
		i, ok := slots[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %s in %s", v, fn))
		}
		return opnd{k: 0, i: i}
	}
	for _, b := range fn.Blocks {
		cb := cblock{b: b, predIx: map[int]int{}}
		for _, s := range b.Succs {
			cb.succ = append(cb.succ, s.Index)
		}
		for i, p := range b.Preds {
			if _, dup := cb.predIx[p.Index]; !dup {
				cb.predIx[p.Index] = i
			}
		}
		for _, in := range b.Instrs {
			c := cin{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				c.dst = slots[v]
				c.t = v.Type()
			}
			switch x := in.(type) {
			case *ssa.Phi:
				ph := cphi{dst: c.dst, in: x}
				for _, e := range x.Edges {
					ph.edges = append(ph.edges, op(e))
				}
				cb.phis = append(cb.phis, ph)
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.BinOp:
				c.a, c.b = op(x.X), op(x.Y)
			case *ssa.UnOp:
				c.a = op(x.X)
			case *ssa.ChangeInterface:
				c.a = op(x.X)
			case *ssa.ChangeType:
				c.a = op(x.X)
			case *ssa.Convert:
				c.a = op(x.X)
			case *ssa.MultiConvert:
				c.a = op(x.X)
			case *ssa.SliceToArrayPointer:
				c.a = op(x.X)
			case *ssa.MakeInterface:
				c.a = op(x.X)
			case *ssa.Extract:
				c.a = op(x.Tuple)
			case *ssa.Slice:
				c.a = op(x.X)
				c.ops = []opnd{op(x.Low), op(x.High), op(x.Max)}
			case *ssa.Return:
				for _, r := range x.Results {
					c.ops = append(c.ops, op(r))
				}
			case *ssa.Panic:
				c.a = op(x.X)
			case *ssa.Send:
				c.a, c.b = op(x.Chan), op(x.X)
			case *ssa.Store:
				c.a, c.b = op(x.Addr), op(x.Val)
			case *ssa.If:
				c.a = op(x.Cond)
			case *ssa.MakeChan:
				c.a = op(x.Size)
			case *ssa.MakeSlice:
				c.a, c.b = op(x.Len), op(x.Cap)
			case *ssa.MakeMap:
			case *ssa.Range:
				c.a = op(x.X)
			case *ssa.Next:
				c.a = op(x.Iter)
			case *ssa.FieldAddr:
				c.a = op(x.X)
			case *ssa.Field:
				c.a = op(x.X)
			case *ssa.IndexAddr:
				c.a, c.b = op(x.X), op(x.Index)
			case *ssa.Index:
				c.a, c.b = op(x.X), op(x.Index)
			case *ssa.Lookup:
				c.a, c.b = op(x.X), op(x.Index)
			case *ssa.MapUpdate:
				c.a, c.b, c.c = op(x.Map), op(x.Key), op(x.Value)
			case *ssa.TypeAssert:
				c.a = op(x.X)
			case *ssa.MakeClosure:
				c.a = op(x.Fn)
				for _, bnd := range x.Bindings {
					c.ops = append(c.ops, op(bnd))
				}
			case *ssa.Select:
				for _, st := range x.States {
					c.ops = append(c.ops, op(st.Chan), op(st.Send))
				}
			case ssa.CallInstruction:
				cc := x.Common()
				c.a = op(cc.Value)
				for _, a := range cc.Args {
					c.ops = append(c.ops, op(a))
				}
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					c.builtin = bi.Name()
				}
				c.callee = cc.StaticCallee()
			}
			cb.code = append(cb.code, c)
		}
		fi.blocks = append(fi.blocks, cb)
	}
	for bi := range fi.blocks {
		cb := &fi.blocks[bi]
		if len(cb.code) == 0 {
			continue
		}
		last := &cb.code[len(cb.code)-1]
		if _, ok := last.in.(*ssa.If); ok {
			last.reg = findRegion(fi, bi)
		}
	}
	return fi
}

func safeConst(c *ssa.Const) (v Value) {
	defer func() {
		if r := recover(); r != nil {
			v = Poison{fmt.Sprint(r)}
		}
	}()
	return constVal(c)
}

func pureBlock(cb *cblock) bool {
	for i := range cb.code {
		switch x := cb.code[i].in.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.QUO, token.REM:
				k, ok := x.Y.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.String() == "0" {
					return false
				}
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Extract, *ssa.ChangeInterface:
		case *ssa.Lookup:
			if _, ok := x.X.Type().Underlying().(*types.Map); ok {
				return false
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		case *ssa.If, *ssa.Jump:
		default:
			return false
		}
	}
	return true
}

func findRegion(fi *finfo, head int) *region {
	in := map[int]bool{}
	var order []int
	exitsOf := func() []int {
		var ex []int
		seen := map[int]bool{}
		add := func(s int) {
			if !in[s] && !seen[s] {
				seen[s] = true
				ex = append(ex, s)
			}
		}
		for _, s := range fi.blocks[head].succ {
			add(s)
		}
		for _, b := range order {
			for _, s := range fi.blocks[b].succ {
				add(s)
			}
		}
		return ex
	}
	var best *region
	for len(order) < 10 {
		grown := false
		for _, s := range exitsOf() {
			if s == head || s == 0 {
				continue
			}
			cb := &fi.blocks[s]
			if len(cb.code) == 0 || !pureBlock(cb) {
				continue
			}
			ok := true
			for p := range cb.predIx {
				if p != head && !in[p] {
					ok = false
				}
			}
			if len(cb.b.Preds) != len(cb.predIx) { // duplicate edges
				ok = false
			}
			if !ok {
				continue
			}
			in[s] = true
			order = append(order, s)
			grown = true
			break
		}
		if !grown {
			break
		}
		ex := exitsOf()
		dupEdge := false
		for _, e := range ex {
			if len(fi.blocks[e].b.Preds) != len(fi.blocks[e].predIx) {
				dupEdge = true
			}
		}
		if dupEdge {
			continue
		}
		if len(ex) == 1 {
			return &region{head: head, order: append([]int(nil), order...), exits: ex}
		}
		if len(ex) == 2 {
			best = &region{head: head, order: append([]int(nil), order...), exits: ex}
		}
	}
	return best
}

func (P *Program) ensureBuilt(fn *ssa.Function) {
	pk := fn.Pkg
	if pk == nil {
		if o := fn.Origin(); o != nil {
			pk = o.Pkg
		}
		if pk == nil && fn.Parent() != nil {
			pk = fn.Parent().Pkg
		}
	}
	if pk != nil {
		P.buildPkg(pk)
	}
}

func (P *Program) buildPkg(pk *ssa.Package) {
	if _, ok := P.built.Load(pk); ok {
		return
	}
	P.buildMu.Lock()
	defer P.buildMu.Unlock()
	if _, ok := P.built.Load(pk); ok {
		return
	}
	pk.Build()
	P.built.Store(pk, true)
}
